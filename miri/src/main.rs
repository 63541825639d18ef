//! Concurrent use of the library, small enough for an interpreter that
//! detects data races and undefined behaviour.
//!
//! The workload is drawn from the hash seed, which the interpreter derives
//! from the seed of the run, as it does the schedule.

use rspolib::prelude::*;
use rspolib::{escaping, mofile, pofile, EntryCmpByOptions, FileOptions, MOEntry, MOFile, Merge, POEntry, POFile};
use std::collections::BTreeMap;
use std::hash::{BuildHasher, RandomState};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier};
use std::thread;

struct Rng(u64);

impl Rng {
    fn below(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) as usize % n
    }
    fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T {
        v[self.below(v.len())]
    }
}

const TEXTS: &[&str] = &["", "a", "two words", "\"q\" \\ \n", "é漢字 x", "tab\tand line\nbreak", "a longer text of several words\n"];
const PO: &[&str] = &[
    "msgid \"a\"\nmsgstr \"b\"\n",
    "# h\nmsgid \"\"\nmsgstr \"Language: es\\n\"\n\n#. e\n#: f.c:1\n#, fuzzy\n#| msgid \"o\"\nmsgctxt \"c\"\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"\\t\"\nmsgstr[1] \"\"\n\"é\"\n",
    "#~ msgid \"o\"\n#~ msgstr \"p\"\n",
    "msgid \"a\"\nmsgstr \"\\q\"\n",
    "msgstr \"a\nnonsense",
];
const ESC: &[&str] = &["a\\nb", "\\q", "\\", "\\\\n\\t\\\"", "é"];

fn entry(r: &mut Rng, i: usize) -> POEntry {
    let mut e = POEntry::new(i);
    e.msgid = format!("m{i}{}", r.pick(TEXTS));
    e.msgstr = Some(r.pick(TEXTS).to_string());
    if r.below(2) == 0 {
        e.msgctxt = Some(r.pick(TEXTS).to_string());
    }
    if r.below(3) == 0 {
        e.msgid_plural = Some(r.pick(TEXTS).to_string());
        e.msgstr = None;
        e.msgstr_plural = vec![r.pick(TEXTS).to_string(), r.pick(TEXTS).to_string()];
    }
    if r.below(2) == 0 {
        e.flags = vec![r.pick(&["fuzzy", "c-format"]).to_string()];
        e.comment = Some("some comment".into());
        e.occurrences = vec![("file.c".into(), "1".into()), ("other.c".into(), "".into())];
    }
    e.obsolete = r.below(5) == 0;
    e
}

#[derive(Clone, Debug)]
enum Job {
    ReadPo(&'static str, bool),
    ReadMo,
    Render(usize),
    Image(bool),
    Convert,
    Find(usize),
    Status,
    Compare(usize, usize),
    Escape(&'static str),
    Unescape(&'static str),
    Panic,
    Merge,
    Edit(usize),
}

fn show(f: POFile) -> String {
    let m: BTreeMap<_, _> = f.metadata.into_iter().collect();
    format!("{:?} {:?} {:?} {:?}", f.header, f.metadata_is_fuzzy, m, f.entries)
}

fn show_mo(f: MOFile) -> String {
    let m: BTreeMap<_, _> = f.metadata.into_iter().collect();
    format!("{:?} {:?}", m, f.entries)
}

fn run(j: &Job, f: &POFile, m: &MOFile, image: &[u8]) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| match j {
        Job::ReadPo(t, true) => format!("{:?}", pofile(t.as_bytes().to_vec()).map(show)),
        Job::ReadPo(t, _) => format!("{:?}", pofile(FileOptions::from((*t, 30))).map(show)),
        Job::ReadMo => format!("{:?}", mofile(image.to_vec()).map(show_mo)),
        Job::Render(w) => f.entries.iter().map(|e| e.to_string_with_wrapwidth(*w)).collect::<String>() + &f.to_string() + &m.to_string(),
        Job::Image(be) => format!("{:?}", if *be { m.as_bytes_be() } else { f.as_bytes_le() }),
        Job::Convert => show_mo(MOFile::from(f)),
        Job::Find(i) => {
            let e = &f.entries[i % f.entries.len()];
            format!("{:?}{:?}{:?}", f.find(&e.msgid, "msgid", None, true), f.find_by_msgid(&e.msgid), m.find(&e.msgid, "msgid", Some("")))
        }
        Job::Status => format!("{:?}{:?}{:?}", f.translated_entries(), f.fuzzy_entries(), f.percent_translated()),
        Job::Compare(i, k) => {
            let n = f.entries.len();
            format!("{:?}", f.entries[i % n].cmp_by(&f.entries[k % n], &EntryCmpByOptions::new()))
        }
        Job::Escape(t) => escaping::escape(t).into_owned(),
        Job::Unescape(t) => format!("{:?}", escaping::unescape(t)),
        Job::Panic => POFile::from("what is this").to_string(),
        Job::Merge => {
            let (mut a, mut b) = (f.clone(), f.clone());
            a.entries.pop();
            b.entries.remove(0);
            a.merge(b);
            show(a)
        }
        Job::Edit(w) => {
            let mut a = f.clone();
            a.remove_by_msgid(&f.entries[0].msgid);
            a.options.wrapwidth = *w;
            a.to_string()
        }
    }));
    r.unwrap_or_else(|_| "panic".into())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Rng(RandomState::new().hash_one(1u8) | 1);
    // built from plain data: the library's code is first run by the threads
    let mut image = vec![];
    for x in [0x950412deu32, 0, 2, 28, 44, 0, 60, 0, 60, 3, 61, 13, 65, 1, 79] {
        image.extend_from_slice(&x.to_le_bytes());
    }
    image.extend_from_slice(b"\0c\x04a\0Language: es\0x\0");
    let n = 2 + r.below(2);
    let threads = 2 + r.below(2);
    let entries: Vec<POEntry> = (0..n).map(|i| entry(&mut r, i)).collect();
    let mut jobs: Vec<Vec<Job>> = vec![];
    let same = r.below(2) == 0;
    for t in 0..threads {
        if same && t > 0 {
            // the same calls at the same time
            jobs.push(jobs[0].clone());
            continue;
        }
        let v = (0..2 + r.below(2))
            .map(|_| match r.below(15) {
                0 | 1 => Job::ReadPo(r.pick(PO), r.below(2) == 0),
                2 => Job::ReadMo,
                3 | 4 => Job::Render(r.below(60)),
                5 => Job::Image(r.below(2) == 0),
                6 => Job::Convert,
                7 => Job::Find(r.below(9)),
                8 => Job::Status,
                9 => Job::Compare(r.below(9), r.below(9)),
                10 => Job::Escape(r.pick(TEXTS)),
                11 => Job::Unescape(r.pick(ESC)),
                12 => Job::Panic,
                13 => Job::Merge,
                _ => Job::Edit(r.below(60)),
            })
            .collect();
        jobs.push(v);
    }
    let mut f = POFile::new(FileOptions::default());
    f.metadata.insert("Language".into(), "es".into());
    f.metadata.insert("X-2".into(), "v".into());
    f.metadata.insert("X-10".into(), "w".into());
    f.entries = entries;
    let mut m = MOFile::new(FileOptions::default());
    m.metadata = f.metadata.clone();
    m.entries = f.entries.iter().map(|e| MOEntry::new(e.msgid.clone(), e.msgstr.clone(), None, vec![], e.msgctxt.clone())).collect();
    let all = Arc::new((jobs, f, m, image));
    let bar = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|i| {
            let (all, bar) = (all.clone(), bar.clone());
            thread::spawn(move || {
                bar.wait();
                let (jobs, f, m, image) = &*all;
                jobs[i].iter().map(|j| run(j, f, m, image)).collect::<Vec<_>>()
            })
        })
        .collect();
    let got: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    let (jobs, f, m, image) = &*all;
    let mut done = 0;
    for (i, v) in jobs.iter().enumerate() {
        for (k, j) in v.iter().enumerate() {
            let alone = run(j, f, m, image);
            if got[i][k] != alone {
                println!("DIFFERS thread {i}, {j:?}: concurrently {:?}, alone {alone:?}", got[i][k]);
                std::process::exit(101);
            }
            done += 1;
        }
    }
    println!("SAME {done} {jobs:?}");
}
