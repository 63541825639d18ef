//! Monitors: allocation accounting, panic capture, CPU clock, statistics.

use crate::src::Src;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
/// Refuse single requests beyond this (the process then aborts).
const HARD: usize = 5 << 29;

fn add(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
    LARGEST.fetch_max(n, Relaxed);
    TOTAL.fetch_add(n, Relaxed);
}

/// Bytes in use.
pub fn live() -> usize {
    LIVE.load(Relaxed)
}

/// Bytes requested since the process started.
pub fn requested() -> usize {
    TOTAL.load(Relaxed)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > HARD {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.fetch_sub(l.size(), Relaxed);
            add(n);
        }
        q
    }
}

/// (peak above the level at entry, largest single request) while running `f`.
pub fn measure_mem<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    let base = LIVE.load(Relaxed);
    PEAK.store(base, Relaxed);
    LARGEST.store(0, Relaxed);
    let r = f();
    (
        r,
        PEAK.load(Relaxed).saturating_sub(base),
        LARGEST.load(Relaxed),
    )
}

pub fn cpu_secs() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

thread_local! {
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let in_lib = IN_LIB.with(|c| c.get()) > 0;
        LAST.with(|l| *l.borrow_mut() = format!("{msg} at {loc}"));
        if !in_lib {
            eprintln!("harness panic: {msg} at {loc}");
        }
    }));
}

/// Run a library call; a panic inside becomes `Err(description)`.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_LIB.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|c| c.set(c.get() - 1));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

#[derive(Debug, Clone)]
pub struct Viol {
    pub msg: String,
    /// key of a recorded finding this violation is an instance of
    pub known: Option<&'static str>,
}

pub type Outcome = Result<(), Viol>;

pub fn viol<T>(msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { msg: msg.into(), known: None })
}

/// Library call whose panic violates the property under check.
pub fn call<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Viol> {
    lib(f).map_err(|p| Viol {
        msg: format!("{what} panicked: {p}"),
        known: None,
    })
}

/// A directory whose name reads like the start of a catalogue.
const ODD: &str = "msgid \"é\"\nmsgstr \"\"";

pub struct Ctx {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub nontrivial: u64,
    pub max_samples: usize,
    pub scratch: String,
    pub thorough: bool,
    pub known: BTreeMap<&'static str, u64>,
}

impl Ctx {
    pub fn new(scratch: String, thorough: bool) -> Ctx {
        // relative paths lead into the scratch directory
        let _ = std::fs::create_dir_all(format!("{scratch}/rel"));
        let _ = std::fs::create_dir_all(format!("{scratch}/{ODD}"));
        let _ = std::os::unix::fs::symlink(".", format!("{scratch}/self"));
        std::env::set_current_dir(&scratch).expect("scratch");
        Ctx {
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: Vec::new(),
            nontrivial: 0,
            max_samples: 4,
            scratch,
            thorough,
            known: BTreeMap::new(),
        }
    }
    /// One of the many ways to write the path of a file in the scratch
    /// directory.
    pub fn spell(&self, s: &mut Src, name: &str) -> String {
        let d = &self.scratch;
        match s.weighted(&[4, 1, 1, 1, 1, 1, 1, 1, 1]) {
            0 => format!("{d}/{name}"),
            1 => name.to_string(),
            2 => format!("./{name}"),
            3 => format!("rel/../{name}"),
            4 => format!("{d}//{name}"),
            5 => format!("{d}/./rel/.././{name}"),
            6 => format!("{d}/self/self/{name}"),
            // looks like content
            7 => format!("{ODD}/../{name}"),
            // long, but not longer than a path may be
            _ => format!("{d}/{}{name}", "./".repeat([100, 130, 500, 1000, 1900][s.us(5)])),
        }
    }
    pub fn ev(&mut self, name: &str) {
        self.evn(name, 1)
    }
    pub fn evn(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    pub fn ev_if(&mut self, cond: bool, name: &str) {
        if cond {
            self.ev(name)
        }
    }
    /// Register a case that actually exercised the property.
    pub fn nontrivial(&mut self, h: &impl Hash, sample: impl FnOnce() -> String) {
        self.nontrivial += 1;
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        if self.distinct.insert(s.finish()) && self.samples.len() < self.max_samples {
            let mut t = sample();
            if t.len() > 600 {
                let mut k = 600;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t.push('…');
            }
            self.samples.push(t);
        }
    }
    pub fn record_known(&mut self, key: &'static str) {
        *self.known.entry(key).or_insert(0) += 1;
    }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::mon::viol(format!($($arg)*));
        }
    };
}
