//! Exhaustive explorer over a tree of finite choices.
//!
//! A *case* is a function that asks a [`Ch`] for a bounded number of finite choices, builds an
//! input from them, runs the real code and the reference model, and compares. The explorer
//! enumerates every path of the choice tree (odometer depth-first search), so a completed run
//! covers the stated space without sampling. The vector of choices is the replay artefact.

use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Fail {
    /// stable identification of the failing rule, used to match known findings
    pub key: String,
    pub msg: String,
}

pub struct Out {
    pub digest: u64,
    pub trivial: bool,
}

pub type Res = Result<Out, Fail>;

pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.into(), msg: msg.into() })
}

pub fn digest(value: &impl Hash) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    value.hash(&mut h);
    let mut x = h.0;
    x ^= x >> 32;
    x = x.wrapping_mul(0x9E3779B97F4A7C15);
    x ^ (x >> 29)
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ u64::from(*b)).wrapping_mul(0x100000001b3);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

/// An outcome that exercised the property.
pub fn out(value: &impl Hash) -> Res {
    Ok(Out { digest: digest(value), trivial: false })
}

/// An outcome where the implementation (rightly) refused the input.
pub fn refused(value: &impl Hash) -> Res {
    Ok(Out { digest: digest(value), trivial: true })
}

/// Source of choices for one execution.
pub struct Ch {
    vals: Vec<u32>,
    bounds: Vec<u32>,
    pos: usize,
    pub thorough: bool,
    compared: u64,
    notes: Option<Vec<String>>,
}

impl Ch {
    fn new(vals: Vec<u32>, thorough: bool, notes: bool) -> Self {
        Ch { vals, bounds: Vec::new(), pos: 0, thorough, compared: 0, notes: notes.then(Vec::new) }
    }
    /// One of `0..k`.
    pub fn n(&mut self, k: usize) -> usize {
        assert!(k > 0 && k <= u32::MAX as usize);
        let v = if self.pos < self.vals.len() {
            self.vals[self.pos]
        } else {
            self.vals.push(0);
            0
        };
        assert!((v as usize) < k, "choice {v} out of range {k}: the case is not deterministic");
        self.bounds.push(k as u32);
        self.pos += 1;
        v as usize
    }
    pub fn flag(&mut self) -> bool {
        self.n(2) == 1
    }
    pub fn byte(&mut self) -> u8 {
        self.n(256) as u8
    }
    pub fn of<T: Clone>(&mut self, items: &[T]) -> T {
        items[self.n(items.len())].clone()
    }
    /// `a` in the quick tier, `b` in the thorough one.
    pub fn tier<T>(&self, a: T, b: T) -> T {
        if self.thorough {
            b
        } else {
            a
        }
    }
    /// Records that one observation of the implementation was compared with the model.
    pub fn ok(&mut self) {
        self.compared += 1;
    }
    pub fn note(&mut self, text: impl FnOnce() -> String) {
        if let Some(n) = &mut self.notes {
            n.push(text());
        }
    }
}

pub type Case = fn(&mut Ch) -> Res;

#[derive(Clone, Copy, PartialEq)]
pub enum Cfg {
    /// default features
    Std,
    /// `plaintext-before-extension`
    Pbe,
    Both,
}

#[derive(Clone)]
pub struct Space {
    pub prop: &'static str,
    pub name: &'static str,
    pub cfg: Cfg,
    pub desc: &'static str,
    /// only explored in the thorough tier
    pub thorough_only: bool,
    pub case: Case,
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        use std::fmt::Write;
        let _ = write!(s, "{x:02X}");
    }
    s
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Ran {
    Fine(Out),
    Failed(Fail),
    /// the harness itself panicked: an error of the check, not a verdict
    Engine(String),
}

/// Runs the implementation call `f`, turning a panic into a failure.
fn run_case(case: Case, ch: &mut Ch) -> Ran {
    match catch_unwind(AssertUnwindSafe(|| case(ch))) {
        Ok(Ok(o)) => Ran::Fine(o),
        Ok(Err(f)) => Ran::Failed(f),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") {
                Ran::Engine(format!("panic in harness at {loc}: {msg}"))
            } else {
                Ran::Failed(Fail { key: format!("panic:{}", short_loc(&loc)), msg: format!("panic at {loc}: {msg}") })
            }
        }
    }
}

fn short_loc(loc: &str) -> String {
    // file without the line, so that unrelated edits above do not rename the finding
    loc.rsplit_once(':').map(|(f, _)| f).unwrap_or(loc).trim_start_matches("/repo/").to_string()
}

// ---------------------------------------------------------------------------------------------
// shared in-flight area: which choices each worker is executing right now

pub const SLOTS: usize = 9;
const SLOT_WORDS: usize = 4096;

pub struct Inflight {
    base: *mut u32,
}
unsafe impl Send for Inflight {}
unsafe impl Sync for Inflight {}

impl Inflight {
    pub fn open(path: &str) -> std::io::Result<Self> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path)?;
        let size = SLOTS * SLOT_WORDS * 4;
        f.set_len(size as u64)?;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Inflight { base: p as *mut u32 })
    }
    fn put(&self, slot: usize, vals: &[u32]) {
        let n = vals.len().min(SLOT_WORDS - 2);
        unsafe {
            let p = self.base.add(slot * SLOT_WORDS);
            p.write_volatile(0);
            std::ptr::copy_nonoverlapping(vals.as_ptr(), p.add(1), n);
            p.write_volatile(n as u32 + 1);
        }
    }
    fn clear(&self, slot: usize) {
        unsafe { self.base.add(slot * SLOT_WORDS).write_volatile(0) }
    }
    pub fn get(&self, slot: usize) -> Option<Vec<u32>> {
        unsafe {
            let p = self.base.add(slot * SLOT_WORDS);
            let n = p.read_volatile();
            if n == 0 || n as usize > SLOT_WORDS {
                return None;
            }
            Some(std::slice::from_raw_parts(p.add(1), n as usize - 1).to_vec())
        }
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Default)]
pub struct Report {
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub nontrivial: u64,
    pub compared: u64,
    pub exhaustive: bool,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, (u64, Vec<u32>, String)>,
    pub failure: Option<(Vec<u32>, String, String)>,
    pub engine: Option<String>,
    pub wall: f64,
}

const BITS: u32 = 27;

struct Bitmap(Vec<AtomicU64>, AtomicU64);
impl Bitmap {
    fn new() -> Self {
        Bitmap((0..(1usize << (BITS - 6))).map(|_| AtomicU64::new(0)).collect(), AtomicU64::new(0))
    }
    fn add(&self, d: u64) {
        let i = (d >> (64 - BITS)) as usize;
        let m = 1u64 << (i & 63);
        let w = &self.0[i >> 6];
        if w.load(Relaxed) & m == 0 && w.fetch_or(m, Relaxed) & m == 0 {
            self.1.fetch_add(1, Relaxed);
        }
    }
}

static BEATS: [AtomicU32; SLOTS] = [const { AtomicU32::new(0) }; SLOTS];
static BUSY: [AtomicBool; SLOTS] = [const { AtomicBool::new(false) }; SLOTS];
static WATCH_OFF: AtomicBool = AtomicBool::new(false);

/// Ends the process when one case does not return; the parent then looks at the cases in flight.
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = [(0u32, Instant::now()); SLOTS];
        while !WATCH_OFF.load(Relaxed) {
            std::thread::sleep(Duration::from_millis(500));
            for (i, l) in last.iter_mut().enumerate() {
                let b = BEATS[i].load(Relaxed);
                if b != l.0 || !BUSY[i].load(Relaxed) {
                    *l = (b, Instant::now());
                } else if l.1.elapsed() > Duration::from_secs(30) {
                    std::process::exit(91);
                }
            }
        }
    });
}

/// Lists choice prefixes that partition the tree, plus the number of tree edges they contain.
fn prefixes(case: Case, thorough: bool, want: usize, inflight: &Inflight) -> (Vec<Vec<u32>>, u64) {
    let mut done: Vec<Vec<u32>> = Vec::new();
    let mut level: Vec<Vec<u32>> = vec![Vec::new()];
    let mut edges = 0;
    let start = Instant::now();
    let slow = |n: usize| n > 100 && start.elapsed() > Duration::from_millis(200);
    while !level.is_empty() && done.len() + level.len() < want && !slow(level.len()) {
        let mut next = Vec::new();
        for p in level {
            let mut ch = Ch::new(p.clone(), thorough, false);
            inflight.put(8, &p);
            BEATS[8].fetch_add(1, Relaxed);
            BUSY[8].store(true, Relaxed);
            let _ = run_case(case, &mut ch);
            BUSY[8].store(false, Relaxed);
            if ch.pos <= p.len() {
                done.push(p);
            } else {
                let k = ch.bounds[p.len()];
                for v in 0..k {
                    let mut q = p.clone();
                    q.push(v);
                    edges += 1;
                    next.push(q);
                }
            }
        }
        level = next;
    }
    inflight.clear(8);
    done.extend(level);
    done.sort();
    (done, edges)
}

pub fn explore(space: &Space, thorough: bool, deadline: Duration, inflight: &'static Inflight, known: &[String]) -> Report {
    let start = Instant::now();
    let case = space.case;
    watchdog();
    let (pre, pre_edges) = prefixes(case, thorough, 1500, inflight);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let next = AtomicUsize::new(0);
    let seen = Bitmap::new();
    let seen_nt = Bitmap::new();
    let (execs, trans, compared) = (AtomicU64::new(0), AtomicU64::new(pre_edges), AtomicU64::new(0));
    let failure: Mutex<Option<(Vec<u32>, String, String)>> = Mutex::new(None);
    let engine: Mutex<Option<String>> = Mutex::new(None);
    let knowns: Mutex<BTreeMap<String, (u64, Vec<u32>, String)>> = Mutex::new(BTreeMap::new());
    let threads: usize = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8).clamp(1, 8);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (pre, stop, capped, next, seen, seen_nt, execs, trans, compared, failure, engine, knowns) =
                (&pre, &stop, &capped, &next, &seen, &seen_nt, &execs, &trans, &compared, &failure, &engine, &knowns);
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(sc, move || {
                    let (mut e, mut tr, mut cmp) = (0u64, 0u64, 0u64);
                    'outer: loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= pre.len() {
                            break;
                        }
                        let base = pre[i].len();
                        let mut vals = pre[i].clone();
                        let mut fresh = base;
                        loop {
                            if stop.load(Relaxed) {
                                break 'outer;
                            }
                            if e & 255 == 0 && start.elapsed() > deadline {
                                capped.store(true, Relaxed);
                                break 'outer;
                            }
                            inflight.put(t, &vals);
                            BUSY[t].store(true, Relaxed);
                            BEATS[t].fetch_add(1, Relaxed);
                            let mut ch = Ch::new(vals, thorough, false);
                            let r = run_case(case, &mut ch);
                            BUSY[t].store(false, Relaxed);
                            e += 1;
                            cmp += ch.compared;
                            tr += (ch.pos.saturating_sub(fresh)) as u64;
                            match r {
                                Ran::Fine(o) => {
                                    seen.add(o.digest);
                                    if !o.trivial {
                                        seen_nt.add(o.digest);
                                    }
                                }
                                Ran::Failed(f) => {
                                    ch.vals.truncate(ch.pos);
                                    if known.iter().any(|k| *k == f.key) {
                                        let mut k = knowns.lock().unwrap();
                                        k.entry(f.key).or_insert_with(|| (0, ch.vals.clone(), f.msg)).0 += 1;
                                    } else {
                                        stop.store(true, Relaxed);
                                        let mut fl = failure.lock().unwrap();
                                        if fl.is_none() {
                                            *fl = Some((ch.vals.clone(), f.key, f.msg));
                                        }
                                        break 'outer;
                                    }
                                }
                                Ran::Engine(m) => {
                                    stop.store(true, Relaxed);
                                    *engine.lock().unwrap() = Some(format!("{m} choices={:?}", ch.vals));
                                    break 'outer;
                                }
                            }
                            // odometer step
                            ch.vals.truncate(ch.pos);
                            loop {
                                let n = ch.vals.len();
                                if n <= base {
                                    break;
                                }
                                if ch.vals[n - 1] + 1 < ch.bounds[n - 1] {
                                    ch.vals[n - 1] += 1;
                                    break;
                                }
                                ch.vals.pop();
                            }
                            if ch.vals.len() <= base {
                                break;
                            }
                            fresh = ch.vals.len() - 1;
                            vals = ch.vals;
                        }
                    }
                    inflight.clear(t);
                    execs.fetch_add(e, Relaxed);
                    trans.fetch_add(tr, Relaxed);
                    compared.fetch_add(cmp, Relaxed);
                })
                .unwrap();
        }
    });
    WATCH_OFF.store(true, Relaxed);
    let mut rep = Report {
        executions: execs.into_inner(),
        transitions: trans.into_inner(),
        compared: compared.into_inner(),
        states: seen.1.into_inner(),
        nontrivial: seen_nt.1.into_inner(),
        exhaustive: !capped.into_inner() && !stop.into_inner(),
        known: knowns.into_inner().unwrap(),
        failure: failure.into_inner().unwrap(),
        engine: engine.into_inner().unwrap(),
        ..Default::default()
    };
    if rep.failure.is_none() && rep.engine.is_none() && !pre.is_empty() {
        for i in [0, pre.len() / 3, 2 * pre.len() / 3] {
            let (_, notes) = replay(case, &pre[i], thorough);
            let s = notes.join(" ");
            if !rep.samples.contains(&s) {
                rep.samples.push(s);
            }
        }
    }
    rep.wall = start.elapsed().as_secs_f64();
    rep
}

pub fn replay(case: Case, choices: &[u32], thorough: bool) -> (Ran, Vec<String>) {
    let mut ch = Ch::new(choices.to_vec(), thorough, true);
    let r = run_case(case, &mut ch);
    (r, ch.notes.unwrap_or_default())
}
