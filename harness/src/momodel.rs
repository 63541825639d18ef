//! Independent MO reader and writer written from the published format.

use crate::gen;
use crate::src::Src;
use rspolib::MOEntry;
use std::collections::HashMap;

pub struct Img {
    pub be: bool,
    pub rev: u32,
    pub n: u32,
    pub o: u32,
    pub t: u32,
    pub s: u32,
    pub h: u32,
    pub keys: Vec<(u32, u32)>,
    pub vals: Vec<(u32, u32)>,
}

pub fn rd(b: &[u8], at: usize, be: bool) -> Result<u32, String> {
    let x: [u8; 4] = b
        .get(at..at + 4)
        .ok_or_else(|| format!("image of {} bytes too short for a word at {at}", b.len()))?
        .try_into()
        .unwrap();
    Ok(if be { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) })
}

pub fn parse_img(b: &[u8]) -> Result<Img, String> {
    let be = match b.get(..4) {
        Some([0xde, 0x12, 0x04, 0x95]) => false,
        Some([0x95, 0x04, 0x12, 0xde]) => true,
        _ => return Err("bad magic".into()),
    };
    let rev = rd(b, 4, be)?;
    let n = rd(b, 8, be)?;
    let o = rd(b, 12, be)?;
    let t = rd(b, 16, be)?;
    let s = rd(b, 20, be)?;
    let h = rd(b, 24, be)?;
    let mut keys = vec![];
    let mut vals = vec![];
    for i in 0..n as usize {
        keys.push((rd(b, o as usize + 8 * i, be)?, rd(b, o as usize + 8 * i + 4, be)?));
        vals.push((rd(b, t as usize + 8 * i, be)?, rd(b, t as usize + 8 * i + 4, be)?));
    }
    Ok(Img { be, rev, n, o, t, s, h, keys, vals })
}

pub fn slice<'a>(b: &'a [u8], (len, off): (u32, u32)) -> Result<&'a [u8], String> {
    b.get(off as usize..off as usize + len as usize)
        .ok_or_else(|| format!("string at {off}+{len} outside image of {} bytes", b.len()))
}

/// Why no reader may accept these bytes, if so.
pub fn requires_error(b: &[u8]) -> Option<&'static str> {
    let be = match b.get(..4) {
        Some([0xde, 0x12, 0x04, 0x95]) => false,
        Some([0x95, 0x04, 0x12, 0xde]) => true,
        Some(_) => return Some("wrong magic number"),
        None => return Some("cut inside its header"),
    };
    if rd(b, 4, be).is_ok_and(|r| r > 1) {
        return Some("unsupported revision");
    }
    let (Ok(n), Ok(o), Ok(t)) = (rd(b, 8, be), rd(b, 12, be), rd(b, 16, be)) else {
        return Some("cut inside its header");
    };
    if n > 0 && o.max(t) as u64 + 8 * n as u64 > b.len() as u64 {
        return Some("tables larger than the image");
    }
    for i in 0..n as usize {
        for at in [o as usize + 8 * i, t as usize + 8 * i] {
            let (Ok(len), Ok(off)) = (rd(b, at, be), rd(b, at + 4, be)) else {
                return None;
            };
            if len > 0 && len as u64 + off as u64 > b.len() as u64 {
                return Some("string outside the image");
            }
        }
    }
    None
}

/// The messages that the tables name, None for those whose parts the format
/// does not tell apart; None if the metadata is not in its place or something
/// is not UTF-8.
pub fn decode(b: &[u8]) -> Option<Vec<Option<MOEntry>>> {
    let im = parse_img(b).ok()?;
    let mut out = vec![];
    for (i, (k, v)) in im.keys.iter().zip(&im.vals).enumerate() {
        let text = |d: (u32, u32)| {
            if d.0 == 0 {
                return Some("");
            }
            std::str::from_utf8(slice(b, d).ok()?).ok()
        };
        let (k, v) = (text(*k)?, text(*v)?);
        if k.is_empty() {
            if i > 0 {
                return None;
            }
            continue;
        }
        let (id, plural) = match k.split_once('\0') {
            Some((id, p)) => (id, Some(p)),
            None => (k, None),
        };
        let (ctx, id) = match id.split_once('\u{4}') {
            Some((c, id)) => (Some(c), id),
            None => (None, id),
        };
        let odd = id.contains('\u{4}') || plural.is_some_and(|p| p.contains(['\0', '\u{4}'])) || plural.is_none() && v.contains('\0');
        let strs: Vec<String> = if plural.is_some() { v.split('\0').map(|x| x.to_string()).collect() } else { vec![] };
        out.push(if odd {
            None
        } else {
            Some(MOEntry::new(
                id.to_string(),
                if plural.is_some() { None } else { Some(v.to_string()) },
                plural.map(|x| x.to_string()),
                strs,
                ctx.map(|x| x.to_string()),
            ))
        });
    }
    Some(out)
}

/// Full key bytes (context, EOT, id, NUL, plural id) and value bytes.
pub fn key_bytes(e: &MOEntry) -> Vec<u8> {
    let mut k = gen::mo_key(e);
    if let Some(p) = &e.msgid_plural {
        k.push(0);
        k.extend(p.as_bytes());
    }
    k
}

pub fn val_bytes(e: &MOEntry) -> Vec<u8> {
    if e.msgid_plural.is_some() {
        let parts: Vec<&[u8]> = e.msgstr_plural.iter().map(|x| x.as_bytes()).collect();
        parts.join(&0u8)
    } else {
        e.msgstr.as_deref().unwrap_or("").as_bytes().to_vec()
    }
}

pub fn meta_bytes(m: &[(String, String)]) -> Vec<u8> {
    let mut t = String::new();
    for (k, v) in m {
        t.push_str(k);
        t.push_str(": ");
        t.push_str(v);
        t.push('\n');
    }
    t.into_bytes()
}

/// What reading must give for a singular/plural message.
pub fn norm(e: &MOEntry) -> MOEntry {
    let mut e = e.clone();
    if e.msgid_plural.is_some() {
        e.msgstr = None;
    } else if e.msgstr.is_none() {
        e.msgstr = Some(String::new());
    }
    e
}

/// Write an image with a random valid physical layout. `entries` are
/// (key, value) in ascending key order (metadata included by the caller).
pub fn write_img(s: &mut Src, items: &[(Vec<u8>, Vec<u8>)], be: bool, rev: u32) -> Vec<u8> {
    let n = items.len();
    let w = |v: u32| if be { v.to_be_bytes() } else { v.to_le_bytes() };
    // regions to place after the 28 byte header
    #[derive(Clone, Copy, PartialEq)]
    enum R {
        O,
        T,
        H,
        S(usize, bool),
    }
    let mut order = vec![R::O, R::T];
    let hash = s.chance(1, 3);
    if hash {
        order.push(R::H);
    }
    let mut strs = vec![];
    for i in 0..n {
        strs.push(R::S(i, false));
        strs.push(R::S(i, true));
    }
    match s.us(4) {
        0 => {
            // GNU style: all keys then all values
            strs.sort_by_key(|r| match r {
                R::S(i, v) => (*v, *i),
                _ => (false, 0),
            });
            order.extend(strs);
        }
        1 => order.extend(strs), // interleaved
        2 => {
            s.shuffle(&mut strs);
            order.extend(strs);
        }
        _ => {
            order.extend(strs);
            s.shuffle(&mut order);
        }
    }
    let gaps = s.chance(1, 3);
    let share = s.chance(1, 3);
    // strings found inside others: at their end or up to one of their NULs
    let inner = s.chance(1, 4);
    let align = if s.chance(1, 4) { 4 } else { 1 };
    let hsize = if hash { [1u32, 3, 7, 13][s.us(4)] } else { 0 };
    let mut b = vec![0u8; 28];
    let (mut o, mut t, mut h) = (0u32, 0u32, 0u32);
    let mut at: HashMap<(usize, bool), (u32, u32)> = HashMap::new();
    let mut pool: HashMap<Vec<u8>, u32> = HashMap::new();
    let mut placed: Vec<(usize, usize)> = vec![];
    if inner {
        // long ones first
        let mut l: Vec<R> = order.iter().copied().filter(|r| matches!(r, R::S(..))).collect();
        l.sort_by_key(|r| match r {
            R::S(i, v) => usize::MAX - if *v { items[*i].1.len() } else { items[*i].0.len() },
            _ => 0,
        });
        order.retain(|r| !matches!(r, R::S(..)));
        order.extend(l);
    }
    for r in order {
        if gaps && s.chance(1, 3) {
            let k = s.range(1, 9);
            for _ in 0..k {
                b.push(s.below(256) as u8);
            }
        }
        match r {
            R::O | R::T => {
                // tables are word aligned as in files made by msgfmt
                while b.len() % 4 != 0 {
                    b.push(0);
                }
                if r == R::O {
                    o = b.len() as u32
                } else {
                    t = b.len() as u32
                }
                b.extend(std::iter::repeat(0).take(8 * n));
            }
            R::H => {
                while b.len() % 4 != 0 {
                    b.push(0);
                }
                h = b.len() as u32;
                for _ in 0..hsize {
                    b.extend(w(s.below(n as u64 + 1) as u32));
                }
            }
            R::S(i, v) => {
                let data = if v { &items[i].1 } else { &items[i].0 };
                if share {
                    if let Some(off) = pool.get(data) {
                        at.insert((i, v), (data.len() as u32, *off));
                        continue;
                    }
                }
                if inner && data.len() < 100 {
                    let mut z = data.clone();
                    z.push(0);
                    let hit = placed.iter().rev().take(40).filter(|p| p.1 < 300).find_map(|&(o, l)| b[o..o + l].windows(z.len()).position(|w| w == z).map(|k| o + k));
                    if let Some(off) = hit {
                        at.insert((i, v), (data.len() as u32, off as u32));
                        continue;
                    }
                }
                while b.len() % align != 0 {
                    b.push(0);
                }
                placed.push((b.len(), data.len() + 1));
                let off = b.len() as u32;
                b.extend(data);
                b.push(0);
                pool.insert(data.clone(), off);
                at.insert((i, v), (data.len() as u32, off));
            }
        }
    }
    if !hash {
        h = b.len() as u32;
    }
    if gaps && s.chance(1, 2) {
        b.extend(b"trailing");
    }
    b[0..4].copy_from_slice(&w(0x950412de));
    b[4..8].copy_from_slice(&w(rev));
    b[8..12].copy_from_slice(&w(n as u32));
    b[12..16].copy_from_slice(&w(o));
    b[16..20].copy_from_slice(&w(t));
    b[20..24].copy_from_slice(&w(hsize));
    b[24..28].copy_from_slice(&w(h));
    for i in 0..n {
        let (l, f) = at[&(i, false)];
        let p = o as usize + 8 * i;
        b[p..p + 4].copy_from_slice(&w(l));
        b[p + 4..p + 8].copy_from_slice(&w(f));
        let (l, f) = at[&(i, true)];
        let p = t as usize + 8 * i;
        b[p..p + 4].copy_from_slice(&w(l));
        b[p + 4..p + 8].copy_from_slice(&w(f));
    }
    b
}
