//! Worker framework: numbered, individually replayable cases; a status page that survives a crash;
//! a CPU-time watchdog; counters for the evidence file.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }
static TICK: AtomicU64 = AtomicU64::new(0);
/// CPU seconds one case may take
static LIMIT: AtomicU64 = AtomicU64::new(30);

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: u64,
    pub nshards: u64,
    pub only: Option<(String, u64)>,
    pub stats: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evals: u64,
    pub viol: Vec<(String, String)>,
    pub truncated: bool,
    stop: Instant,
    status: *mut u8,
    sampled: HashSet<String>,
    pub args: BTreeMap<String, String>,
    /// run each stream backwards
    pub rev: bool,
    digests: Vec<(String, u64)>,
}

pub fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
pub fn cpu() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}
/// Run `f`; a panic becomes an error with its message and place.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| p.borrow_mut().take());
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

impl Ctx {
    pub fn new(args: &BTreeMap<String, String>) -> Ctx {
        let g = |k: &str, d: &str| args.get(k).cloned().unwrap_or_else(|| d.to_string());
        let sh = g("shard", "0/1");
        let (a, b) = sh.split_once('/').unwrap();
        let only = args.get("case").map(|c| { let (s, n) = c.rsplit_once('/').unwrap(); (s.to_string(), n.parse().unwrap()) });
        let mut status = std::ptr::null_mut();
        if cfg!(miri) {} else if let Some(p) = args.get("status") {
            unsafe {
                let c = std::ffi::CString::new(p.as_str()).unwrap();
                let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o644);
                libc::ftruncate(fd, 4096);
                status = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0) as *mut u8;
                libc::close(fd);
            }
        }
        std::panic::set_hook(Box::new(|i| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("panic: {m} ({l})")));
        }));
        if !cfg!(miri) { std::thread::spawn(|| {
            let mut last = TICK.load(Relaxed);
            let mut at = cpu();
            loop {
                std::thread::sleep(Duration::from_millis(250));
                let t = TICK.load(Relaxed);
                if t != last { last = t; at = cpu() } else if t != 0 && cpu() - at > LIMIT.load(Relaxed) as f64 {
                    eprintln!("HANG: one case used more than {} s of CPU time", LIMIT.load(Relaxed));
                    unsafe { libc::_exit(99) }
                }
            }
        }); }
        let secs: u64 = g("seconds", "400").parse().unwrap();
        Ctx {
            id: g("id", ""), thorough: g("tier", "quick") == "thorough", seed: g("seed", "1").parse().unwrap(), shard: a.parse().unwrap(), nshards: b.parse().unwrap(), only, stats: BTreeMap::new(), distinct: HashSet::new(),
            samples: vec![], evals: 0, viol: vec![], truncated: false, stop: Instant::now() + Duration::from_secs(secs), status, sampled: HashSet::new(), args: args.clone(), rev: g("part", "") == "rev", digests: vec![],
        }
    }
    pub fn part(&self) -> String { self.args.get("part").cloned().unwrap_or_default() }
    /// The class files the driver packed: (name, bytes).
    pub fn corpus(&self) -> Vec<(String, Vec<u8>)> {
        let mut v = vec![];
        let Some(p) = self.args.get("corpus") else { return v };
        let b = std::fs::read(p).expect("corpus");
        let mut i = 0;
        let n = |i: usize| u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) as usize;
        while i < b.len() { let a = n(i); let name = String::from_utf8_lossy(&b[i + 4..i + 4 + a]).into_owned(); i += 4 + a; let l = n(i); v.push((name, b[i + 4..i + 4 + l].to_vec())); i += 4 + l }
        v
    }
    /// quick and thorough amounts
    pub fn n(&self, quick: u64, thorough: u64) -> u64 { if self.thorough { thorough } else { quick } }
    pub fn inc(&mut self, k: &str) { self.add(k, 1) }
    pub fn add(&mut self, k: &str, n: u64) { if n > 0 { *self.stats.entry(k.to_string()).or_insert(0) += n } }
    pub fn max(&mut self, k: &str, n: u64) { let e = self.stats.entry(format!("max_{k}")).or_insert(0); *e = (*e).max(n) }
    /// count a distinct non-trivial case
    pub fn seen<T: Hash + ?Sized>(&mut self, x: &T) { let h = hash(x); self.distinct.insert(h); }
    pub fn sample(&mut self, kind: &str, f: impl FnOnce() -> String) {
        if self.shard == 0 && self.samples.len() < 40 && self.sampled.insert(kind.to_string()) { let mut s = f(); if s.len() > 900 { let mut e = 900; while !s.is_char_boundary(e) { e -= 1 } s.truncate(e); s.push_str("...") } self.samples.push(format!("{kind}: {s}")) }
    }
    fn mark(&self, stream: &str, k: u64) {
        TICK.fetch_add(1, Relaxed);
        if self.status.is_null() { return }
        let s = format!("{stream}/{k}\n");
        unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), self.status, s.len().min(400)); }
    }
    /// What a case came to, for comparison with another process.
    pub fn digest(&mut self, k: String, h: u64) { if self.args.contains_key("digest") { self.digests.push((k, h)) } }
    pub fn save_digests(&self) { if let Some(p) = self.args.get("digest") { let mut s = String::new(); for (k, h) in &self.digests { s += &format!("{k} {h:016x}\n") } std::fs::write(p, s).expect("digests") } }
    pub fn tick(&self) { TICK.fetch_add(1, Relaxed); }
    pub fn fail(&mut self, stream: &str, k: u64, msg: String) { if self.viol.len() < 20 { self.viol.push((format!("{stream}/{k}"), msg)) } }
    fn full(&mut self) -> bool {
        if self.viol.len() >= 5 { return true }
        if Instant::now() > self.stop { self.truncated = true; return true }
        false
    }
    /// Run cases 0..n of a stream (this shard's part of them), each with its own generator.
    pub fn cases(&mut self, stream: &str, n: u64, mut f: impl FnMut(&mut Ctx, &mut Rng) -> Res) {
        self.indexed(stream, n, |c, r, _| f(c, r))
    }
    pub fn indexed(&mut self, stream: &str, n: u64, mut f: impl FnMut(&mut Ctx, &mut Rng, u64) -> Res) {
        let st = hash(stream);
        let (lo, step) = match &self.only { Some((s, k)) => { if s != stream { return } (*k, u64::MAX) } None => (self.shard, self.nshards) };
        let mut i = lo;
        while i < n || self.only.is_some() {
            if self.full() { return }
            let k = if self.rev && self.only.is_none() { n - 1 - i } else { i };
            self.mark(stream, k);
            let mut r = Rng::case(self.seed, st, k);
            self.evals += 1;
            PANIC.with(|p| p.borrow_mut().take());
            match catch_unwind(AssertUnwindSafe(|| f(self, &mut r, k))) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => self.fail(stream, k, e),
                Err(_) => { let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()); self.fail(stream, k, m) }
            }
            match i.checked_add(step) { Some(x) if self.only.is_none() => i = x, _ => break }
        }
        self.mark("-", 0);
    }
    /// A single piece of work done by one shard only.
    pub fn once(&mut self, stream: &str, at: u64, mut f: impl FnMut(&mut Ctx, &mut Rng) -> Res) {
        let only = self.only.clone();
        if only.is_none() && self.shard != at % self.nshards { return }
        if let Some((s, _)) = &only { if s != stream { return } }
        let (a, b) = (self.shard, self.nshards);
        self.shard = 0; self.nshards = 1;
        self.indexed(stream, 1, |c, r, _| f(c, r));
        self.shard = a; self.nshards = b;
    }
    pub fn json(&self) -> String {
        let mut o = String::from("{");
        o += &format!("\"evaluations\":{},\"truncated\":{},", self.evals, self.truncated);
        o += "\"stats\":{";
        o += &self.stats.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
        o += "},\"samples\":[";
        o += &self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
        o += "],\"violations\":[";
        o += &self.viol.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect::<Vec<_>>().join(",");
        o += "],\"distinct\":[";
        o += &self.distinct.iter().take(200_000).map(|h| format!("{h}")).collect::<Vec<_>>().join(",");
        o += "]}";
        o
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 0x20 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o.push('"');
    o
}
pub fn set_limit(s: u64) { LIMIT.store(s, Relaxed) }
