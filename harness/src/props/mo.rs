//! MO image properties: M01-M05 and the MO half of P07.

use super::po::{norm_entry, short};
use super::Prop;
use crate::ensure;
use crate::eq::{self, Same};
use crate::gen::{self, EntryOpts, KEY, STR};
use crate::mon::{call, cpu_secs, lib, measure_mem, viol, Ctx, Outcome, Viol};
use crate::momodel::{self as mm, key_bytes, meta_bytes, norm, val_bytes};
use crate::src::Src;
use rspolib::errors::IOError;
use rspolib::prelude::*;
use rspolib::{mofile, pofile, FileOptions, MOEntry, MOFile, POEntry, POFile, MAGIC, MAGIC_SWAPPED};
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "M01", f: m01, rule: "catalogue with at least one message was written and re-read; distinct by image", quick: 4_000_000, thorough: 28_000_000 },
        Prop { id: "M02", f: m02, rule: "image with at least one message besides the metadata was dissected; distinct by image", quick: 3_000_000, thorough: 21_000_000 },
        Prop { id: "M03", f: m03, rule: "independently laid out image with at least one message; distinct by image", quick: 3_000_000, thorough: 21_000_000 },
        Prop { id: "M04", f: m04, rule: "damaged, cut or random image given to the reader; distinct by bytes", quick: 3_000_000, thorough: 21_000_000 },
        Prop { id: "M05", f: m05, rule: "catalogue with at least one translated and one untranslated message, or MO catalogue with a message; distinct by content", quick: 1_000_000, thorough: 7_000_000 },
    ]
}

fn hexs(b: &[u8]) -> String {
    let mut t: String = b.iter().take(300).map(|x| format!("{x:02x}")).collect();
    if b.len() > 300 {
        t.push('…');
    }
    t
}

fn catalogue(s: &mut Src) -> MOFile {
    let mut f = MOFile::new("".into());
    f.entries = gen::mo_entries(s);
    f.metadata = gen::metadata(s);
    more_messages(&mut f.entries, gen::bulk_mo(s, 20_000));
    // an image of more than 16 MiB
    if s.chance(1, 100_000) {
        let text = "!".repeat((1 << 24) + s.us(100));
        let id = s.chance(1, 2);
        let e = MOEntry::new(if id { text.clone() } else { "!".into() }, Some(if id { "t".into() } else { text }), None, vec![], None);
        more_messages(&mut f.entries, vec![e]);
    }
    f
}

/// Adds messages whose keys are not there yet.
fn more_messages(to: &mut Vec<MOEntry>, more: Vec<MOEntry>) {
    if !more.is_empty() {
        let seen: std::collections::HashSet<Vec<u8>> = to.iter().map(gen::mo_key).collect();
        to.extend(more.into_iter().filter(|e| !seen.contains(&gen::mo_key(e))));
    }
}

fn sorted(v: &[MOEntry]) -> Vec<MOEntry> {
    let mut v: Vec<MOEntry> = v.iter().map(norm).collect();
    v.sort_by_key(gen::mo_key);
    v
}

pub fn m01(s: &mut Src, c: &mut Ctx) -> Outcome {
    let f = catalogue(s);
    let be = s.chance(1, 2);
    let rev = s.below(2) as u32;
    let magic = if be { MAGIC_SWAPPED } else { MAGIC };
    let b = match s.us(4) {
        0 if rev == 0 => call("as_bytes", || {
            if be {
                f.as_bytes_be().into_owned()
            } else {
                f.as_bytes_le().into_owned()
            }
        })?,
        1 if rev == 0 && !be => call("as_bytes", || f.as_bytes().into_owned())?,
        _ => call("as_bytes_with", || f.as_bytes_with(magic, rev).into_owned())?,
    };
    if !f.entries.is_empty() {
        c.nontrivial(&b, || format!("{} messages, be={be}, rev={rev}: {}", f.entries.len(), hexs(&b)));
    }
    c.ev(if be { "big_endian" } else { "little_endian" });
    let g = match call("reading back", || mofile(b.clone()))? {
        Ok(g) => g,
        Err(e) => return viol(format!("own image rejected: {e}; image {}", hexs(&b))),
    };
    ensure!(g.magic_number == Some(magic), "written with magic {magic:x}, read as {:x?}", g.magic_number);
    ensure!(g.version == Some(rev), "written with revision {rev}, read as {:?}", g.version);
    ensure!(g.metadata == f.metadata, "metadata {:?} read back as {:?}", f.metadata, g.metadata);
    let (a, z) = (sorted(&f.entries), sorted(&g.entries));
    ensure!(a.len() == z.len(), "{} messages written, {} read back; {:?}", a.len(), z.len(), f.entries);
    for (x, y) in a.iter().zip(&z) {
        ensure!(x.same(y), "message {x:?} read back as {y:?}");
    }
    c.evn("messages_compared", a.len() as u64);
    c.evn("messages_with_context", a.iter().filter(|e| e.msgctxt.is_some()).count() as u64);
    c.evn("plural_messages", a.iter().filter(|e| e.msgid_plural.is_some()).count() as u64);
    Ok(())
}

pub fn m02(s: &mut Src, c: &mut Ctx) -> Outcome {
    let f = catalogue(s);
    let be = s.chance(1, 2);
    let rev = s.below(2) as u32;
    let b = call("as_bytes_with", || f.as_bytes_with(if be { MAGIC_SWAPPED } else { MAGIC }, rev).into_owned())?;
    if !f.entries.is_empty() {
        c.nontrivial(&b, || format!("{} messages, be={be}, rev={rev}: {}", f.entries.len(), hexs(&b)));
    }
    check_image(&f, &b, be, rev, c)
}

/// Dissect an image from the format description.
pub fn check_image(f: &MOFile, b: &[u8], be: bool, rev: u32, c: &mut Ctx) -> Outcome {
    let bad = |e: String| -> Outcome { viol(format!("{e}; image {}", hexs(b))) };
    let im = match mm::parse_img(b) {
        Ok(i) => i,
        Err(e) => return bad(e),
    };
    if im.be != be {
        return bad(format!("asked for big endian={be}, image says {}", im.be));
    }
    if im.rev != rev {
        return bad(format!("asked for revision {rev}, image says {}", im.rev));
    }
    let n = im.n as usize;
    if n != f.entries.len() + 1 {
        return bad(format!("{} strings for {} messages plus metadata", n, f.entries.len()));
    }
    // extents: header, tables, hash table, strings with their NUL
    let mut ext: Vec<(usize, usize, String)> = vec![(0, 28, "header".into())];
    ext.push((im.o as usize, im.o as usize + 8 * n, "key table".into()));
    ext.push((im.t as usize, im.t as usize + 8 * n, "value table".into()));
    if im.s > 0 {
        ext.push((im.h as usize, im.h as usize + 4 * im.s as usize, "hash table".into()));
    }
    let mut keys: Vec<&[u8]> = vec![];
    let mut vals: Vec<&[u8]> = vec![];
    for i in 0..n {
        for (which, d) in [("key", im.keys[i]), ("value", im.vals[i])] {
            let data = match mm::slice(b, d) {
                Ok(x) => x,
                Err(e) => return bad(format!("{which} {i}: {e}")),
            };
            let end = d.1 as usize + d.0 as usize;
            if b.get(end) != Some(&0) {
                return bad(format!("{which} {i} is not followed by NUL"));
            }
            ext.push((d.1 as usize, end + 1, format!("{which} {i}")));
            if which == "key" {
                keys.push(data)
            } else {
                vals.push(data)
            }
        }
    }
    ext.sort();
    for w in ext.windows(2) {
        if w[1].0 < w[0].1 {
            return bad(format!("{} overlaps {}", w[1].2, w[0].2));
        }
    }
    if let Some(l) = ext.last() {
        if l.1 > b.len() {
            return bad(format!("{} ends outside the image", l.2));
        }
    }
    if !keys[0].is_empty() {
        return bad("first key is not the empty metadata key".into());
    }
    for w in keys.windows(2) {
        if w[0] >= w[1] {
            return bad(format!("keys not in ascending order: {:?} before {:?}", String::from_utf8_lossy(w[0]), String::from_utf8_lossy(w[1])));
        }
    }
    // metadata text
    let meta = String::from_utf8_lossy(vals[0]).into_owned();
    let mut got: BTreeMap<String, String> = BTreeMap::new();
    for l in meta.split('\n') {
        if let Some((k, v)) = l.split_once(": ") {
            if got.insert(k.to_string(), v.trim().to_string()).is_some() {
                return bad(format!("metadata field {k:?} written twice"));
            }
        } else if !l.is_empty() {
            return bad(format!("odd metadata line {l:?}"));
        }
    }
    let want: BTreeMap<String, String> = f.metadata.clone().into_iter().collect();
    if got != want {
        return bad(format!("metadata {want:?} written as {got:?}"));
    }
    // look every message up the way gettext does
    for e in &f.entries {
        let kb = key_bytes(e);
        let lookup = gen::mo_key(e);
        // the C runtime compares up to the NUL
        let pos = keys.binary_search_by(|k| {
            let cut = k.iter().position(|x| *x == 0).unwrap_or(k.len());
            k[..cut].cmp(&lookup[..])
        });
        match pos {
            Ok(p) => {
                if keys[p] != &kb[..] {
                    return bad(format!("key of {e:?} stored as {:?}", String::from_utf8_lossy(keys[p])));
                }
                if vals[p] != &val_bytes(e)[..] {
                    return bad(format!("translation of {e:?} stored as {:?}", String::from_utf8_lossy(vals[p])));
                }
            }
            Err(_) => return bad(format!("binary search does not find {e:?}")),
        }
        c.ev("lookups");
    }
    c.ev(if be { "big_endian" } else { "little_endian" });
    Ok(())
}

fn items(f: &[MOEntry], meta: &Option<Vec<(String, String)>>) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v: Vec<(Vec<u8>, Vec<u8>)> = f.iter().map(|e| (key_bytes(e), val_bytes(e))).collect();
    if let Some(m) = meta {
        v.push((vec![], meta_bytes(m)));
    }
    v.sort();
    v
}

fn gen_meta(s: &mut Src) -> Option<Vec<(String, String)>> {
    if s.chance(1, 5) {
        return None;
    }
    let mut v: Vec<_> = gen::metadata(s).into_iter().collect();
    v.sort();
    s.shuffle(&mut v);
    Some(v)
}

pub fn m03(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut entries = gen::mo_entries(s);
    more_messages(&mut entries, gen::bulk_mo(s, 20_000));
    // translations that are part of others, for the layouts that share them
    if entries.len() > 1 && s.chance(1, 4) {
        for _ in 0..s.range(1, 3) {
            let a = s.us(entries.len());
            let b = s.us(entries.len());
            let mut forms: Vec<String> = entries[a].msgstr_plural.clone();
            forms.extend(entries[a].msgstr.clone());
            if forms.is_empty() || a == b {
                continue;
            }
            let k = s.us(forms.len());
            if entries[b].msgid_plural.is_some() {
                entries[b].msgstr_plural = if s.chance(1, 2) { forms[..=k].to_vec() } else { forms[k..].to_vec() };
            } else {
                let skip = if s.chance(1, 2) { 0 } else { s.us(4) };
                entries[b].msgstr = Some(forms[k].chars().skip(skip).collect());
            }
        }
    }
    let meta = gen_meta(s);
    let be = s.chance(1, 2);
    let rev = s.below(2) as u32;
    // blanks around a metadata value do not belong to it
    let mut written = meta.clone();
    for (_, v) in written.iter_mut().flatten() {
        if s.chance(1, 6) {
            *v = format!("{}{v}{}", s.pick(&["", " ", "\t", "  "]), s.pick(&["", " ", "\t", "\r"]));
        }
    }
    let it = items(&entries, &written);
    let b = mm::write_img(s, &it, be, rev);
    if !entries.is_empty() {
        c.nontrivial(&b, || format!("{} messages, be={be}, rev={rev}: {}", entries.len(), hexs(&b)));
    }
    let g = match call("reading a valid image", || mofile(b.clone()))? {
        Ok(g) => g,
        Err(e) => return viol(format!("valid image rejected: {e}; messages {entries:?} image {}", hexs(&b))),
    };
    ensure!(g.magic_number == Some(if be { MAGIC_SWAPPED } else { MAGIC }), "magic read as {:x?}", g.magic_number);
    ensure!(g.version == Some(rev), "revision {rev} read as {:?}", g.version);
    let want_meta: HashMap<String, String> = meta.clone().unwrap_or_default().into_iter().collect();
    ensure!(g.metadata == want_meta, "metadata {want_meta:?} read as {:?}; image {}", g.metadata, hexs(&b));
    let mut want: Vec<MOEntry> = entries.iter().map(norm).collect();
    want.sort_by_key(key_bytes);
    ensure!(want.len() == g.entries.len(), "{} messages in the image, {} read", want.len(), g.entries.len());
    for (x, y) in want.iter().zip(&g.entries) {
        let y = norm(y);
        ensure!(x.same(&y), "message {x:?} read as {y:?}; image {}", hexs(&b));
        c.ev_if(x.msgctxt.is_some(), "messages_with_context");
        c.ev_if(x.msgid_plural.is_some(), "plural_messages");
    }
    c.ev(if be { "big_endian" } else { "little_endian" });
    Ok(())
}

fn corpus() -> &'static Vec<Vec<u8>> {
    static C: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        let mut names: Vec<_> = std::fs::read_dir("/repo/rust/tests-data").map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        names.sort();
        for p in names {
            if p.extension().is_some_and(|e| e == "mo") {
                if let Ok(b) = std::fs::read(&p) {
                    if b.len() < 20_000 {
                        v.push(b);
                    }
                }
            }
        }
        v
    })
}

pub fn m04(s: &mut Src, c: &mut Ctx) -> Outcome {
    match damaged(s)? {
        Some((b, must, what)) => m04_run(s, c, b, must, what),
        None => Ok(()),
    }
}

pub type Damaged = (Vec<u8>, Option<&'static str>, &'static str);

/// A damaged image, what the reader has to report if anything, and the damage.
pub fn damaged(s: &mut Src) -> Result<Option<Damaged>, Viol> {
    // a valid image first
    let be = s.chance(1, 2);
    let rev = s.below(2) as u32;
    let own = s.chance(1, 3);
    let mut entries = gen::mo_entries(s);
    entries.truncate(12);
    let meta = gen_meta(s);
    let mut b = if own {
        let mut f = MOFile::new("".into());
        f.entries = entries.clone();
        f.metadata = meta.clone().unwrap_or_default().into_iter().collect();
        call("as_bytes_with", || f.as_bytes_with(if be { MAGIC_SWAPPED } else { MAGIC }, rev).into_owned())?
    } else if !corpus().is_empty() && s.chance(1, 8) {
        s.pick(corpus()).clone()
    } else {
        mm::write_img(s, &items(&entries, &meta), be, rev)
    };
    let im = match mm::parse_img(&b) {
        Ok(i) => i,
        // e.g. the deliberately damaged samples among the test data
        Err(_) => return Ok(Some((b, None, "sample as it is"))),
    };
    let w = |v: u32| if im.be { v.to_be_bytes() } else { v.to_le_bytes() };
    let put = |b: &mut Vec<u8>, at: usize, v: u32| {
        if at + 4 <= b.len() {
            b[at..at + 4].copy_from_slice(&w(v));
        }
    };
    let n = im.n as usize;
    let len = b.len();
    let kind = s.us(9);
    // Some(..): the reader has to report an error
    let (must, what): (Option<&'static str>, &'static str) = match kind {
        0 => {
            // cut
            let at = s.us(len);
            b.truncate(at);
            let data_end = im
                .keys
                .iter()
                .chain(&im.vals)
                .filter(|d| d.0 > 0)
                .map(|d| d.0 as usize + d.1 as usize)
                .chain(if n > 0 { vec![im.o as usize + 8 * n, im.t as usize + 8 * n] } else { vec![20] })
                .max()
                .unwrap();
            (if at < data_end { Some("cut inside its tables or strings") } else { None }, "cut")
        }
        1 => {
            let m = match s.us(4) {
                0 => s.below(1 << 32) as u32,
                1 => 0x950412de ^ (1 << s.below(32)),
                2 => 0xde120495 ^ (1 << s.below(32)),
                _ => *s.pick(&[0u32, u32::MAX, 0x950412df, 0x12de9504, 0x7f454c46]),
            };
            b[..4].copy_from_slice(&m.to_le_bytes());
            (if m != 0x950412de && m != 0xde120495 { Some("wrong magic number") } else { None }, "magic")
        }
        2 => {
            let r = match s.us(4) {
                0 => s.below(1 << 32) as u32,
                1 => 2 + s.below(10) as u32,
                2 => *s.pick(&[0x10000u32, 0x10001, 0x1000000, u32::MAX, 256, 0x00010000]),
                _ => 1 << s.below(32),
            };
            put(&mut b, 4, r);
            (if r > 1 { Some("unsupported revision") } else { None }, "revision")
        }
        3 => {
            // one descriptor's string moved outside
            if n == 0 {
                return Ok(None);
            }
            let i = s.us(n);
            let val = s.chance(1, 2);
            let (d, t) = if val { (im.vals[i], im.t) } else { (im.keys[i], im.o) };
            let p = t as usize + 8 * i;
            let (l, o) = match s.us(5) {
                0 => (d.0.max(1), len as u32 + s.below(100) as u32),
                1 => (d.0.max(1), u32::MAX - s.below(1000) as u32),
                2 => ((len as u32).saturating_sub(d.1) + 1 + s.below(100) as u32, d.1),
                3 => (u32::MAX - s.below(64) as u32, d.1),
                _ => (*s.pick(&[0x7fffffffu32, 0x80000000, 0x40000000, 0x10000000, 0xfffffff0]), *s.pick(&[0u32, 28, 0xffffffff, 0x80000000])),
            };
            put(&mut b, p, l);
            put(&mut b, p + 4, o);
            (if l > 0 && (l as u64 + o as u64) > len as u64 { Some("string outside the image") } else { None }, "descriptor")
        }
        4 => {
            // number of strings
            let m = match s.us(5) {
                0 => n as u32 + 1 + s.below(3) as u32,
                1 => s.below(1 << 32) as u32,
                2 => u32::MAX,
                3 => (len / 8) as u32,
                _ => *s.pick(&[0x20000000u32, 0x1fffffff, 0x80000000, 1 << 28, 0x10000]),
            };
            put(&mut b, 8, m);
            let end = 8u64 * m as u64 + im.o.max(im.t) as u64;
            (if end > len as u64 { Some("tables larger than the image") } else { None }, "count")
        }
        5 => {
            let at = *s.pick(&[12usize, 16]);
            let o = match s.us(4) {
                0 => s.below(len as u64 + 16) as u32,
                1 => s.below(1 << 32) as u32,
                2 => u32::MAX - s.below(16) as u32,
                _ => len as u32 + s.below(16) as u32,
            };
            put(&mut b, at, o);
            (if n > 0 && o as u64 + 8 * n as u64 > len as u64 { Some("table outside the image") } else { None }, "table offset")
        }
        6 => {
            let k = s.range(1, 4);
            for _ in 0..k {
                if !b.is_empty() {
                    let at = s.us(b.len());
                    match s.us(3) {
                        0 => b[at] = s.below(256) as u8,
                        1 => b[at] ^= 1 << s.below(8),
                        _ => {
                            b.remove(at);
                        }
                    }
                }
            }
            (None, "random bytes changed")
        }
        7 => {
            let n = s.range(0, 120);
            b = (0..n).map(|_| s.below(256) as u8).collect();
            if s.chance(2, 3) && b.len() >= 8 {
                b[..4].copy_from_slice(&(*s.pick(&[0x950412deu32, 0xde120495])).to_le_bytes());
                let r = s.below(2) as u32;
                b[4..8].copy_from_slice(&r.to_le_bytes());
            }
            (None, "random image")
        }
        _ => {
            // invalid UTF-8 / odd control bytes inside strings
            let ds: Vec<(u32, u32)> = im.keys.iter().chain(&im.vals).copied().filter(|d| d.0 > 0).collect();
            if ds.is_empty() {
                return Ok(None);
            }
            let d = *s.pick(&ds);
            let at = d.1 as usize + s.us(d.0 as usize);
            b[at] = *s.pick(&[0xffu8, 0x80, 0xc3, 0, 4, 0xf0]);
            (None, "odd byte in a string")
        }
    };
    Ok(Some((b, must, what)))
}

fn m04_run(s: &mut Src, c: &mut Ctx, b: Vec<u8>, must: Option<&str>, what: &str) -> Outcome {
    let path = c.spell(s, "m04.mo");
    let via_file = s.chance(1, 4);
    if via_file && std::fs::write(&path, &b).is_err() {
        return Ok(());
    }
    let t0 = cpu_secs();
    let (r, peak, largest) = if via_file {
        c.ev("route_file");
        measure_mem(|| lib(|| mofile(path.as_str())))
    } else {
        let b2 = b.clone();
        measure_mem(|| lib(|| mofile(b2)))
    };
    let cpu = cpu_secs() - t0;
    let must = must.or_else(|| mm::requires_error(&b));
    c.nontrivial(&b, || format!("{what}: {}", hexs(&b)));
    c.ev(&format!("damage: {what}"));
    let r = match r {
        Ok(r) => r,
        Err(p) => return viol(format!("MO reader panicked on {what}: {p}; image {}", hexs(&b))),
    };
    // every descriptor can name the whole input, and text made of NULs is
    // split into one string per byte: quadratic in the input, no more
    let bound = (2usize << 20) + (b.len() / 8 + 1) * (b.len() * 64 + 512);
    let bound = bound.min(3 << 30);
    ensure!(peak <= bound, "MO reader used {peak} bytes for {what}, an image of {} bytes; image {}", b.len(), hexs(&b));
    let one = (1usize << 20) + 160 * b.len();
    ensure!(largest <= one, "MO reader requested {largest} bytes at once for {what}, an image of {} bytes; image {}", b.len(), hexs(&b));
    ensure!(cpu <= 30.0, "MO reader used {cpu:.1} s of CPU for an image of {} bytes", b.len());
    match (&r, must) {
        (Ok(f), Some(m)) => viol(format!("{m}: read as a catalogue of {} messages; image {}", f.entries.len(), hexs(&b))),
        (Err(e), Some(m)) => {
            c.ev("errors_required_and_reported");
            let ok = match m {
                "wrong magic number" => matches!(e, IOError::IncorrectMagicNumber { .. }),
                "unsupported revision" => matches!(e, IOError::UnsupportedMORevisionNumber { .. }),
                _ => true,
            };
            ensure!(ok, "{m} reported as {e:?}");
            Ok(())
        }
        (Ok(f), None) => {
            c.ev("accepted");
            // nothing invented: all text comes from the image
            for e in &f.entries {
                for t in [Some(&e.msgid), e.msgstr.as_ref(), e.msgid_plural.as_ref(), e.msgctxt.as_ref()].into_iter().flatten().chain(&e.msgstr_plural) {
                    if t.is_empty() || t.contains('\u{fffd}') {
                        continue;
                    }
                    c.ev("strings_traced_to_input");
                    ensure!(contains(&b, t.as_bytes()), "string {t:?} does not occur in the image {}", hexs(&b));
                }
            }
            // ... from the places its tables name
            if let Some(rows) = mm::decode(&b) {
                ensure!(rows.len() == f.entries.len(), "{} messages in the tables, {} read; {what}, image {}", rows.len(), f.entries.len(), hexs(&b));
                for (x, y) in rows.iter().zip(&f.entries) {
                    let Some(x) = x else { continue };
                    let y = norm(y);
                    ensure!(x.same(&y), "message {x:?} of the tables read as {y:?}; {what}, image {}", hexs(&b));
                    c.ev("messages_compared_with_tables");
                }
            }
            Ok(())
        }
        (Err(_), None) => {
            c.ev("rejected");
            Ok(())
        }
    }
}

fn contains(h: &[u8], n: &[u8]) -> bool {
    if n.len() > h.len() {
        return false;
    }
    let first = n[0];
    let mut i = 0;
    while i + n.len() <= h.len() {
        match h[i..].iter().position(|x| *x == first) {
            None => return false,
            Some(k) => {
                i += k;
                if i + n.len() <= h.len() && &h[i..i + n.len()] == n {
                    return true;
                }
                i += 1;
            }
        }
    }
    false
}

fn translated(e: &POEntry) -> bool {
    if e.obsolete || e.flags.iter().any(|f| f == "fuzzy") {
        return false;
    }
    if e.msgid_plural.is_some() || !e.msgstr_plural.is_empty() {
        !e.msgstr_plural.is_empty() && e.msgstr_plural.iter().all(|x| !x.is_empty())
    } else {
        e.msgstr.as_deref().is_some_and(|x| !x.is_empty())
    }
}

pub fn m05(s: &mut Src, c: &mut Ctx) -> Outcome {
    if s.chance(1, 3) {
        return m05_mo_to_po(s, c);
    }
    let w = gen::wrapwidth(s);
    let mut f = POFile::new(("", w).into());
    f.metadata = gen::metadata(s);
    f.metadata_is_fuzzy = s.chance(1, 4);
    f.header = gen::header(s);
    let o = EntryOpts { key: KEY, val: STR, annotations: s.chance(1, 2), width: 78 };
    let n = gen::nentries(s);
    let mut seen = std::collections::HashSet::new();
    let twice = s.chance(1, 8);
    for _ in 0..n {
        let mut e = gen::po_entry(s, &o);
        if s.chance(1, 2) {
            // more shipped messages than the generator gives by default
            e.flags.retain(|f| f != "fuzzy");
            e.obsolete = false;
        }
        if let Some(p) = &mut e.msgid_plural {
            if p.is_empty() {
                p.push('p');
            }
        }
        // mostly a key occurs twice only if at most one of them is shipped
        if translated(&e) && !seen.insert((e.msgctxt.clone(), e.msgid.clone())) && !twice {
            e.flags.push("fuzzy".into());
        }
        f.entries.push(e);
        if twice && s.chance(1, 3) {
            // the same message once more, with the same or another translation
            let mut e = f.entries[s.us(f.entries.len())].clone();
            if s.chance(1, 2) {
                e.msgstr = e.msgstr.map(|t| t + "2");
            }
            f.entries.push(e);
        }
    }
    for (i, m) in gen::bulk_mo(s, 20_000).iter().enumerate() {
        if seen.insert((m.msgctxt.clone(), m.msgid.clone())) {
            let mut e = POEntry::new(0);
            (e.msgctxt, e.msgid, e.msgid_plural) = (m.msgctxt.clone(), m.msgid.clone(), m.msgid_plural.clone());
            (e.msgstr, e.msgstr_plural) = (m.msgstr.clone(), m.msgstr_plural.clone());
            if i % 11 == 4 {
                e.flags.push("fuzzy".into());
            }
            e.obsolete = i % 13 == 5;
            f.entries.push(e);
        }
    }
    let want: Vec<MOEntry> = f
        .entries
        .iter()
        .filter(|e| translated(e))
        .map(|e| MOEntry::new(e.msgid.clone(), e.msgstr.clone(), e.msgid_plural.clone(), e.msgstr_plural.clone(), e.msgctxt.clone()))
        .collect();
    if !want.is_empty() && want.len() < f.entries.len() {
        c.nontrivial(&format!("{:?}", f.entries), || format!("{} of {} shipped: {:?}", want.len(), f.entries.len(), f.entries));
    }
    let m = call("converting to MO", || MOFile::from(&f))?;
    ensure!(m.metadata == f.metadata, "metadata {:?} converted to {:?}", f.metadata, m.metadata);
    ensure!(m.entries.same(&want), "translated messages {want:?} but conversion ships {:?}", m.entries);
    let path = c.spell(s, "m05.mo");
    let imgs: Vec<(&str, Vec<u8>)> = vec![
        ("as_bytes", call("as_bytes", || f.as_bytes().into_owned())?),
        ("as_bytes_le", call("as_bytes_le", || f.as_bytes_le().into_owned())?),
        ("as_bytes_be", call("as_bytes_be", || f.as_bytes_be().into_owned())?),
        ("save_as_mofile", {
            let _ = std::fs::remove_file(&path);
            call("save_as_mofile", || f.save_as_mofile(&path))?;
            match std::fs::read(&path) {
                Ok(b) => b,
                Err(e) => return viol(format!("saved MO file cannot be read: {e}")),
            }
        }),
    ];
    let mut want_sorted: Vec<(Vec<u8>, Vec<u8>)> = want.iter().map(|e| (key_bytes(e), val_bytes(e))).collect();
    want_sorted.sort();
    for (n, b) in imgs {
        let im = match mm::parse_img(&b) {
            Ok(i) => i,
            Err(e) => return viol(format!("{n}: {e}")),
        };
        ensure!(im.be == (n == "as_bytes_be"), "{n}: wrong byte order");
        ensure!(im.rev == 0, "{n}: revision {}", im.rev);
        let mut got = vec![];
        let mut meta = None;
        for i in 0..im.n as usize {
            let (k, v) = match (mm::slice(&b, im.keys[i]), mm::slice(&b, im.vals[i])) {
                (Ok(k), Ok(v)) => (k.to_vec(), v.to_vec()),
                (a, b) => return viol(format!("{n}: string {i}: {a:?} {b:?}")),
            };
            if k.is_empty() {
                meta = Some(v);
            } else {
                got.push((k, v));
            }
        }
        got.sort();
        ensure!(got == want_sorted, "{n}: image holds {} messages, {} are translated; expected {want:?}", got.len(), want.len());
        let meta = String::from_utf8(meta.unwrap_or_default()).unwrap_or_default();
        let gm: HashMap<String, String> = meta.split('\n').filter_map(|l| l.split_once(": ")).map(|(k, v)| (k.to_string(), v.trim().to_string())).collect();
        ensure!(gm == f.metadata, "{n}: metadata {:?} shipped as {gm:?}", f.metadata);
        c.ev("images_checked");
    }
    c.evn("messages_shipped", want.len() as u64);
    c.evn("messages_held_back", (f.entries.len() - want.len()) as u64);
    Ok(())
}

fn m05_mo_to_po(s: &mut Src, c: &mut Ctx) -> Outcome {
    let w = gen::wrapwidth(s);
    let mut m = MOFile::new(("", w).into());
    m.entries = gen::mo_entries(s);
    m.metadata = gen::metadata(s);
    more_messages(&mut m.entries, gen::bulk_mo(s, 20_000));
    // half of the catalogues come from an image
    if s.chance(1, 2) {
        let b = call("as_bytes", || m.as_bytes().into_owned())?;
        match call("reading back", || mofile((b, w)))? {
            Ok(x) => m = x,
            Err(_) => {
                c.ev("own_image_rejected_left_to_M01");
                return Ok(());
            }
        }
    }
    let t = match s.us(2) {
        0 => call("rendering MO as PO text", || m.to_string())?,
        _ => {
            let path = c.spell(s, "m05.po");
            call("save_as_pofile", || m.save_as_pofile(&path))?;
            match std::fs::read_to_string(&path) {
                Ok(t) => t,
                Err(e) => return viol(format!("saved PO file cannot be read: {e}")),
            }
        }
    };
    if !m.entries.is_empty() {
        c.nontrivial(&t, || t.clone());
    }
    let f = match call("reading PO text", || pofile((t.as_str(), w)))? {
        Ok(f) => f,
        Err(e) => return viol(format!("PO text of an MO catalogue rejected: {e}; text {}", short(&t))),
    };
    ensure!(f.metadata == m.metadata, "metadata {:?} read as {:?}; text {}", m.metadata, f.metadata, short(&t));
    ensure!(f.entries.len() == m.entries.len(), "{} messages written, {} read; text {}", m.entries.len(), f.entries.len(), short(&t));
    for (a, b) in m.entries.iter().zip(&f.entries) {
        let a = norm(a);
        let b = norm_entry(b);
        let b = MOEntry::new(b.msgid, b.msgstr, b.msgid_plural, b.msgstr_plural, b.msgctxt);
        ensure!(a.same(&b), "message {a:?} read from PO text as {b:?} at width {w}; text {}", short(&t));
        c.ev("messages_back_to_po");
    }
    // entry-level conversions keep the message
    for a in m.entries.iter().take(3) {
        let p = call("POEntry::from", || POEntry::from(a))?;
        let z = call("MOEntry::from", || MOEntry::from(&p))?;
        ensure!(a.same(&z), "message {a:?} converted to PO and back is {z:?}");
    }
    Ok(())
}

pub fn p07_mo(s: &mut Src, c: &mut Ctx) -> Outcome {
    let entries = gen::mo_entries(s);
    let meta = gen_meta(s);
    let be = s.chance(1, 2);
    let mut b = mm::write_img(s, &items(&entries, &meta), be, 0);
    if s.chance(1, 3) {
        let k = s.us(b.len());
        match s.us(3) {
            0 => b.truncate(k),
            1 => b[k] ^= 0xff,
            _ => b[4] = 9,
        }
    }
    let w = gen::wrapwidth(s);
    let path = c.spell(s, "p07.mo");
    if std::fs::write(&path, &b).is_err() {
        return Ok(());
    }
    c.nontrivial(&b, || hexs(&b));
    let mut rs: Vec<(&str, Result<MOFile, IOError>, usize)> = vec![];
    macro_rules! go {
        ($n:expr, $w:expr, $e:expr) => {
            match lib(|| $e) {
                Ok(r) => rs.push(($n, r, $w)),
                Err(p) => return viol(format!("reading via {} panicked: {p}; image {}", $n, hexs(&b))),
            }
        };
    }
    go!("path", 78, mofile(path.as_str()));
    go!("path and width", w, mofile((path.as_str(), w)));
    go!("Path", 78, mofile(std::path::Path::new(&path)));
    go!("bytes", 78, mofile(b.clone()));
    go!("bytes and width", w, mofile((b.clone(), w)));
    let ob = FileOptions { path_or_content: String::new(), wrapwidth: w, byte_content: Some(b.clone()) };
    go!("borrowed options with bytes", w, mofile(&ob));
    go!("options with bytes", w, mofile(ob.clone()));
    let op = FileOptions { path_or_content: path.clone(), wrapwidth: w, byte_content: None };
    go!("borrowed options with path", w, mofile(&op));
    go!("options with path", w, mofile(op));
    let view = |r: &Result<MOFile, IOError>| match r {
        Ok(f) => Ok((eq::mos(&f.entries), f.metadata.clone(), f.magic_number, f.version)),
        Err(e) => Err(std::mem::discriminant(e)),
    };
    let first = view(&rs[0].1);
    c.ev(if rs[0].1.is_ok() { "mo_accepted_everywhere" } else { "mo_rejected_everywhere" });
    for (n, r, w) in &rs {
        let x = view(r);
        ensure!(x == first, "MO read via {n} gives {r:?}, via path {:?}", rs[0].1);
        if let Ok(f) = r {
            ensure!(f.options.wrapwidth == *w, "wrap width {w} given via {n} became {}", f.options.wrapwidth);
        }
    }
    c.evn("routes_compared", rs.len() as u64);
    Ok(())
}
