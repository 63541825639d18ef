//! Runtime monitors for the rspolib catalogue library.
//!
//! `vh worker` runs a shard of generated cases of one property under its
//! monitor; `vh one`, `vh replay` re-run single cases.

mod doc;
mod eq;
mod gen;
mod momodel;
mod mon;
mod props;
mod serve;
mod src;

use mon::{Ctx, Viol};
use props::Prop;
use serde_json::{json, Value};
use src::{splitmix, Src};
use std::io::{Read, Seek, SeekFrom, Write};
use std::time::{Duration, Instant};

#[global_allocator]
static A: mon::Counting = mon::Counting;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn flag(name: &str) -> bool {
    std::env::args().any(|x| x == name)
}

fn num(name: &str, default: u64) -> u64 {
    arg(name).and_then(|v| v.parse().ok()).unwrap_or(default)
}

fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    let mut x = seed;
    let mut h = splitmix(&mut x);
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut y = h ^ index.wrapping_mul(0xd6e8feb86659fd93);
    splitmix(&mut y)
}

fn find(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(3)
    })
}

fn stdin_choices() -> Vec<u64> {
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).unwrap();
    t.split_whitespace().map(|x| x.parse().unwrap()).collect()
}

fn main() {
    mon::install_panic_hook();
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let code = match cmd.as_str() {
        "list" => {
            for p in props::all() {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        "worker" => worker(),
        "one" => one(),
        "replay" => replay(),
        "distinct" => distinct(),
        "serve" => serve::serve(),
        "images" => images(),
        "s02-child" => {
            println!("{}", props::sys::s02_child(stdin_choices()));
            0
        }
        "s03-alone" => props::sys::s03_alone(&std::env::args().nth(2).unwrap_or_default(), stdin_choices()),
        "s03-child" => props::sys::s03_child(&std::env::args().nth(2).unwrap_or_default(), stdin_choices()),
        _ => {
            eprintln!("usage: vh list|worker|one|replay|distinct|serve|images");
            3
        }
    };
    std::process::exit(code);
}

fn worker() -> i32 {
    let id = std::env::args().nth(2).unwrap_or_default();
    let p = find(&id);
    let thorough = flag("--thorough");
    let seed = num("--seed", 0);
    let shard = num("--shard", 0);
    let shards = num("--shards", 1);
    let cases = num("--cases", if thorough { p.thorough } else { p.quick });
    let deadline = Instant::now() + Duration::from_secs_f64(arg("--secs").and_then(|v| v.parse().ok()).unwrap_or(1e6));
    let scratch = arg("--scratch").expect("--scratch");
    let out = arg("--out").expect("--out");
    let known: Vec<String> = arg("--known").unwrap_or_default().split(',').map(|x| x.to_string()).collect();
    let mut hb = std::fs::File::create(format!("{out}.hb")).expect("heartbeat");
    let mut c = Ctx::new(scratch, thorough);
    let mut done = 0u64;
    let mut viol: Option<Value> = None;
    let mut known_sample: Value = json!({});
    let mut i = shard;
    while i < cases {
        if Instant::now() >= deadline {
            break;
        }
        hb.seek(SeekFrom::Start(0)).ok();
        hb.write_all(&i.to_le_bytes()).ok();
        let mut s = Src::from_seed(case_seed(seed, &id, i));
        let r = (p.f)(&mut s, &mut c);
        done += 1;
        if let Err(v) = r {
            match v.known {
                Some(k) if known.iter().any(|x| x == k) => {
                    c.record_known(k);
                    if known_sample.get(k).is_none() {
                        known_sample[k] = json!(v.msg);
                    }
                }
                _ => {
                    let (choices, msg, tries) = shrink(&p, s.rec, v, &mut c, &known);
                    viol = Some(json!({"index": i, "seed": seed, "choices": choices, "msg": msg, "shrink_steps": tries}));
                    break;
                }
            }
        }
        i += shards;
    }
    let mut d: Vec<u8> = Vec::with_capacity(c.distinct.len() * 8);
    for h in &c.distinct {
        d.extend(h.to_le_bytes());
    }
    std::fs::write(format!("{out}.distinct"), d).expect("distinct");
    let v = json!({
        "done": done, "planned": cases, "counters": c.counters, "nontrivial": c.nontrivial,
        "samples": c.samples, "known": c.known, "known_sample": known_sample,
        "violation": viol, "rule": p.rule, "finished": i >= cases,
    });
    let part = format!("{out}.part");
    std::fs::write(&part, v.to_string()).expect("result");
    std::fs::rename(&part, &out).expect("result");
    if viol.is_some() {
        1
    } else {
        0
    }
}

fn bad(p: &Prop, choices: &[u64], c: &mut Ctx, known: &[String]) -> Option<(Vec<u64>, Viol)> {
    let mut t = Ctx::new(c.scratch.clone(), c.thorough);
    let mut s = Src::from_choices(choices.to_vec());
    match (p.f)(&mut s, &mut t) {
        Err(v) => match v.known {
            Some(k) if known.iter().any(|x| x == k) => None,
            _ => Some((s.rec, v)),
        },
        Ok(()) => None,
    }
}

/// Shorten the recorded choices while the case still violates the property.
fn shrink(p: &Prop, rec: Vec<u64>, v: Viol, c: &mut Ctx, known: &[String]) -> (Vec<u64>, String, u64) {
    let end = Instant::now() + Duration::from_secs(10);
    let mut best = rec;
    let mut msg = v.msg;
    let mut tries = 0;
    match bad(p, &best, c, known) {
        Some((r, v)) => {
            best = r;
            msg = v.msg;
        }
        // not reproducible from its own choices (e.g. a race): keep as is
        None => return (best, msg, 0),
    }
    let mut progress = true;
    while progress && Instant::now() < end {
        progress = false;
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.len() && Instant::now() < end {
                let hi = (at + size).min(best.len());
                let mut t = best.clone();
                t.drain(at..hi);
                tries += 1;
                if let Some((r, v)) = bad(p, &t, c, known) {
                    if r.len() < best.len() {
                        best = r;
                        msg = v.msg;
                        progress = true;
                        continue;
                    }
                }
                if best[at..hi].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[at..hi].iter_mut().for_each(|x| *x = 0);
                    tries += 1;
                    if let Some((r, v)) = bad(p, &t, c, known) {
                        if r.len() <= best.len() && r != best {
                            best = r;
                            msg = v.msg;
                            progress = true;
                        }
                    }
                }
                at += size;
            }
            if size == 1 || Instant::now() >= end {
                break;
            }
            size /= 2;
        }
        let mut k = 0;
        while k < best.len() && Instant::now() < end {
            for f in [|x: u64| x / 2, |x: u64| x.saturating_sub(1)] {
                if best[k] > 0 {
                    let mut t = best.clone();
                    t[k] = f(t[k]);
                    tries += 1;
                    if let Some((r, v)) = bad(p, &t, c, known) {
                        if r.len() <= best.len() && r != best {
                            best = r;
                            msg = v.msg;
                            progress = true;
                            if k >= best.len() {
                                break;
                            }
                        }
                    }
                }
            }
            k += 1;
        }
    }
    (best, msg, tries)
}

fn report(p: &Prop, mut s: Src, scratch: String) -> i32 {
    let mut c = Ctx::new(scratch, false);
    match (p.f)(&mut s, &mut c) {
        Ok(()) => {
            println!("held");
            0
        }
        Err(v) => {
            println!("broken{}: {}", v.known.map(|k| format!(" (finding {k})")).unwrap_or_default(), v.msg);
            1
        }
    }
}

/// One generated case by index.
fn one() -> i32 {
    let id = std::env::args().nth(2).unwrap_or_default();
    let p = find(&id);
    report(&p, Src::from_seed(case_seed(num("--seed", 0), &id, num("--index", 0))), arg("--scratch").expect("--scratch"))
}

fn replay() -> i32 {
    let f = std::env::args().nth(2).unwrap_or_default();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap_or("").to_string();
    let p = find(&id);
    let s = match v["choices"].as_array() {
        Some(a) => Src::from_choices(a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()),
        None => Src::from_seed(case_seed(v["seed"].as_u64().unwrap_or(0), &id, v["index"].as_u64().unwrap_or(0))),
    };
    report(&p, s, arg("--scratch").expect("--scratch"))
}

/// Number of distinct hashes over several shard files.
fn distinct() -> i32 {
    let mut v: Vec<u64> = vec![];
    for f in std::env::args().skip(2) {
        let b = std::fs::read(&f).unwrap_or_default();
        v.extend(b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
    }
    v.sort_unstable();
    v.dedup();
    println!("{}", v.len());
    0
}

/// Catalogues with their images for readers in other languages.
fn images() -> i32 {
    use rspolib::{MAGIC, MAGIC_SWAPPED};
    let n = num("--cases", 100);
    let seed = num("--seed", 0);
    let dir = arg("--dir").expect("--dir");
    let mut out = vec![];
    for i in 0..n {
        let mut s = Src::from_seed(case_seed(seed, "images", i));
        let mut f = rspolib::MOFile::new("".into());
        f.entries = gen::mo_entries(&mut s);
        f.metadata = gen::metadata(&mut s);
        // what foreign readers need to decode the strings
        f.metadata.retain(|k, _| !k.eq_ignore_ascii_case("content-type") && !k.eq_ignore_ascii_case("plural-forms"));
        f.metadata.insert("Content-Type".into(), "text/plain; charset=UTF-8".into());
        let be = s.chance(1, 2);
        // GNU tools want another header layout in revision 1
        let revision = s.below(2) as u32;
        let b = f.as_bytes_with(if be { MAGIC_SWAPPED } else { MAGIC }, revision).into_owned();
        let path = format!("{dir}/{i}.mo");
        std::fs::write(&path, &b).expect("image");
        out.push(json!({
            "path": path, "be": be, "revision": revision, "metadata": f.metadata,
            "entries": f.entries.iter().map(|e| json!({"id": e.msgid, "ctx": e.msgctxt, "plural": e.msgid_plural,
                "str": e.msgstr, "strs": e.msgstr_plural})).collect::<Vec<_>>(),
        }));
    }
    println!("{}", Value::Array(out));
    0
}
