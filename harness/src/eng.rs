//! The monitoring engine: deterministic case generation, online monitors,
//! three-valued verdicts, watchdog, replay files and evidence.
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::dict::Dict;

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Self(mix(seed), mix(seed ^ 0xDEAD_BEEF_CAFE_F00D) | 1)
    }
    pub fn u64(&mut self) -> u64 {
        // xorshift128+
        let mut x = self.0;
        let y = self.1;
        self.0 = y;
        x ^= x << 23;
        self.1 = x ^ y ^ (x >> 17) ^ (y >> 26);
        self.1.wrapping_add(y)
    }
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u64() % n as u64) as usize
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

// ---------------------------------------------------------------- monitor
/// The keys are already mixed.
#[derive(Default, Clone, Copy)]
pub struct Id(u64);
impl std::hash::Hasher for Id {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
pub type Seen = HashSet<u64, std::hash::BuildHasherDefault<Id>>;
#[derive(Default)]
pub struct Mon {
    /// oracle evaluations
    pub evals: u64,
    /// distinct non-trivial observations (hash of inputs + class)
    pub seen: Seen,
    /// events per class
    pub classes: BTreeMap<&'static str, u64>,
    /// inconclusive observations (out of the stated domain, ill-conditioned)
    pub inconclusive: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<&'static str, (u64, String)>,
    pub verbose: bool,
    pub log: Vec<String>,
    cur_monitor: &'static str,
    cur_seed: u64,
    case_failed: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub monitor: &'static str,
    pub seed: u64,
    pub class: String,
    pub detail: String,
}

impl Mon {
    /// Records one oracle evaluation. `key` identifies the observed input.
    pub fn check(&mut self, class: &'static str, key: u64, ok: bool, detail: impl FnOnce() -> String) {
        self.evals += 1;
        *self.classes.entry(class).or_insert(0) += 1;
        if self.seen.len() < 150_000 {
            self.seen.insert(mix(key ^ hash_str(class)));
        }
        if !ok {
            if !self.case_failed {
                self.case_failed = true;
                let d = detail();
                self.violations.push(Violation {
                    monitor: self.cur_monitor,
                    seed: self.cur_seed,
                    class: class.to_string(),
                    detail: d,
                });
            }
        } else if self.samples.len() < 3 && (self.evals % 997 == 1) {
            let d = detail();
            self.samples.push(format!("{class}: {d}"));
        }
    }
    /// An observation that neither confirms nor refutes.
    pub fn skip(&mut self, why: &'static str) {
        *self.inconclusive.entry(why).or_insert(0) += 1;
    }
    /// An observation that matches a listed known finding.
    pub fn known(&mut self, id: &'static str, what: impl FnOnce() -> String) {
        self.evals += 1;
        let e = self.known.entry(id).or_insert_with(|| (0, what()));
        e.0 += 1;
    }
    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if self.verbose {
            let t = s();
            self.log.push(t);
        }
    }
    fn merge(&mut self, o: Mon) {
        self.evals += o.evals;
        self.seen.extend(o.seen);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.inconclusive {
            *self.inconclusive.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known {
            self.known.entry(k).or_insert((0, v.1)).0 += v.0;
        }
        for s in o.samples {
            if self.samples.len() < 24 {
                self.samples.push(s);
            }
        }
        self.violations.extend(o.violations);
    }
}

// ---------------------------------------------------------------- case context
pub struct G {
    pub r: Rng,
    pub dict: &'static Dict,
    pub recent: Vec<f64>,
    pub thorough: bool,
}

pub type CaseFn = fn(&mut G, &mut Mon);

pub struct Monitor {
    pub name: &'static str,
    pub f: CaseFn,
    /// number of cases in the quick tier
    pub quick: f64,
    /// run single threaded, in order
    pub serial: bool,
}

pub fn mon(name: &'static str, quick: u64, f: CaseFn) -> Monitor {
    Monitor { name, f, quick: quick as f64, serial: false }
}
pub fn serial(name: &'static str, quick: u64, f: CaseFn) -> Monitor {
    Monitor { name, f, quick: quick as f64, serial: true }
}

thread_local! {
    static PANIC_MSG: Cell<Option<String>> = const { Cell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!(
            "{} at {}",
            info.payload()
                .downcast_ref::<&str>()
                .map(ToString::to_string)
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into()),
            info.location().map(ToString::to_string).unwrap_or_default()
        );
        PANIC_MSG.with(|c| c.set(Some(msg)));
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG.with(|c| c.take()).unwrap_or_else(|| "panic".into())
}

fn case_seed(base: u64, monitor: &str, idx: u64) -> u64 {
    mix(mix(base) ^ hash_str(monitor) ^ mix(idx.wrapping_mul(0x2545_F491_4F6C_DD1D)))
}

pub fn run_case(m: &Monitor, seed: u64, dict: &'static Dict, thorough: bool, out: &mut Mon) {
    out.cur_monitor = m.name;
    out.cur_seed = seed;
    out.case_failed = false;
    let mut g = G { r: Rng::new(seed), dict, recent: Vec::new(), thorough };
    crate::sys::alias_reset();
    let res = catch_unwind(AssertUnwindSafe(|| (m.f)(&mut g, out)));
    if res.is_err() {
        let msg = last_panic();
        if !out.case_failed {
            out.violations.push(Violation {
                monitor: m.name,
                seed,
                class: "panic".into(),
                detail: format!("the call panicked: {msg}"),
            });
        }
    }
}

/// Exit code of a child in which a case did not return.
pub const HUNG: i32 = 97;
pub const BOARD_WORDS: usize = 16;

/// The cases in progress (monitor number + 1, seed; one pair per thread), in a file shared with the parent
/// process, which reads it when this process is killed by a signal.
fn board() -> Option<&'static [std::sync::atomic::AtomicU64]> {
    extern "C" {
        fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    }
    use std::os::fd::AsRawFd;
    let p = std::env::var_os("VP_BOARD")?;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(p).ok()?;
    // PROT_READ|PROT_WRITE, MAP_SHARED
    let a = unsafe { mmap(std::ptr::null_mut(), BOARD_WORDS * 8, 3, 1, f.as_raw_fd(), 0) };
    if a as isize == -1 {
        return None;
    }
    Some(unsafe { std::slice::from_raw_parts(a.cast(), BOARD_WORDS) })
}

pub struct Outcome {
    pub total: Mon,
    pub per_monitor: Vec<(String, u64, u64, f64)>,
    pub timed_out: Option<String>,
}

/// Wall-clock cap of one whole check (inconclusive when it fires, unless the property is about termination).
pub fn run_monitors(
    mons: &[Monitor],
    base_seed: u64,
    dict: &'static Dict,
    factor: f64,
    thorough: bool,
    hang_limit: Duration,
    budget: Duration,
) -> Outcome {
    let mut total = Mon::default();
    let mut per = Vec::new();
    let start_all = Instant::now();
    let timed_out: Mutex<Option<String>> = Mutex::new(None);
    let board = board();
    for (mi, m) in mons.iter().enumerate() {
        let n = (m.quick * factor).ceil().max(1.0) as u64;
        let threads = if m.serial { 1 } else { 8usize };
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        let slots: Vec<(AtomicU64, AtomicU64)> =
            (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(u64::MAX))).collect();
        let merged = Mutex::new(Vec::new());
        let t0 = Instant::now();
        std::thread::scope(|s| {
            for t in 0..threads {
                let (next, stop, done, slots, merged) = (&next, &stop, &done, &slots, &merged);
                std::thread::Builder::new()
                    // what a thread gets by default: calls that need more would kill a user's thread
                    .stack_size(2 << 20)
                    .spawn_scoped(s, move || {
                        let mut local = Mon::default();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            let seed = case_seed(base_seed, m.name, i);
                            slots[t].1.store(seed, Ordering::Relaxed);
                            slots[t].0.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            if let Some(b) = board {
                                b[2 * t + 1].store(seed, Ordering::Relaxed);
                                b[2 * t].store(mi as u64 + 1, Ordering::Relaxed);
                            }
                            run_case(m, seed, dict, thorough, &mut local);
                            slots[t].0.store(0, Ordering::Relaxed);
                            if let Some(b) = board {
                                b[2 * t].store(0, Ordering::Relaxed);
                            }
                            if local.violations.len() > 20 {
                                break;
                            }
                        }
                        done.fetch_add(1, Ordering::Relaxed);
                        merged.lock().unwrap().push(local);
                    })
                    .unwrap();
            }
            // watchdog
            loop {
                if done.load(Ordering::Relaxed) == threads as u64 {
                    break;
                }
                std::thread::sleep(Duration::from_millis(5));
                let now = t0.elapsed().as_millis() as u64;
                for (st, seed) in &slots {
                    let st = st.load(Ordering::Relaxed);
                    if st != 0 && now.saturating_sub(st) > hang_limit.as_millis() as u64 {
                        // The hung thread cannot be joined: the parent process looks into it.
                        eprintln!("monitor={} case-seed={:#x} did not return within {} s", m.name, seed.load(Ordering::Relaxed), hang_limit.as_secs());
                        std::process::exit(HUNG);
                    }
                }
                if start_all.elapsed() > budget {
                    stop.store(true, Ordering::Relaxed);
                    *timed_out.lock().unwrap() = Some(format!("time budget reached in {}", m.name));
                }
            }
        });
        let mut evals = 0;
        let mut viol = 0;
        for l in merged.into_inner().unwrap() {
            evals += l.evals;
            viol += l.violations.len() as u64;
            total.merge(l);
        }
        let _ = viol;
        per.push((m.name.to_string(), next.load(Ordering::Relaxed).min(n), evals, t0.elapsed().as_secs_f64()));
    }
    total.violations.sort_by(|a, b| (a.monitor, a.seed).cmp(&(b.monitor, b.seed)));
    Outcome { total, per_monitor: per, timed_out: timed_out.into_inner().unwrap() }
}

// ---------------------------------------------------------------- json helper
pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
