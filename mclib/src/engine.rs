//! Exhaustive exploration of deterministic harness closures.
//!
//! A harness is a function `fn(&Ctx) -> R`.  Every decision it needs (which
//! operation, which size, which fault) is asked for with `ctx.choose(n)`.  The
//! explorer runs the harness for *every* sequence of answers: it replays a
//! prefix, answers 0 afterwards, and queues every alternative of every later
//! choice point.  `choose_dev` is a choice whose non-zero answers cost one unit
//! of a deviation budget (faults, short reads...).
//!
//! The exploration runs in a forked child.  If the child dies from a signal or
//! one execution exceeds its time limit, the executions that were in progress
//! are re-run one by one in fresh children and only a reproduced crash or hang
//! is a verdict; anything else is an engine error (exit 2).

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Stop {
    /// The property is broken. `key` identifies a listed known finding.
    Violation { msg: String, key: Option<String> },
    /// This execution is redundant or outside the domain; not counted.
    Prune,
    /// The harness itself is broken (exit 2, never a verdict).
    Engine(String),
}
pub type R<T = ()> = Result<T, Stop>;

pub fn viol<T>(msg: impl Into<String>) -> R<T> {
    Err(Stop::Violation {
        msg: msg.into(),
        key: None,
    })
}

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return $crate::engine::viol(format!($($a)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return $crate::engine::viol(format!($($a)*)); } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    prefix: Vec<u32>,
    trace: RefCell<Vec<(u32, u32)>>,
    budget: Cell<u32>,
    dev_used: Cell<u32>,
    pub tier: Tier,
    verbose: bool,
    notes: RefCell<Vec<String>>,
    steps: Cell<u64>,
    states: RefCell<Vec<u64>>,
    digest: Cell<u64>,
    nontrivial: Cell<bool>,
    /// index of the worker running this execution
    pub worker: usize,
}

pub fn mix(mut h: u64, v: u64) -> u64 {
    h ^= v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h = (h ^ (h >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    h ^ (h >> 32)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ b.len() as u64;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = mix(h, u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
    }
    for &x in it.remainder() {
        h = mix(h, x as u64 + 1);
    }
    h
}

impl Ctx {
    fn new(prefix: Vec<u32>, tier: Tier, budget: u32, verbose: bool, worker: usize) -> Self {
        Ctx {
            prefix,
            trace: RefCell::new(Vec::new()),
            budget: Cell::new(budget),
            dev_used: Cell::new(0),
            tier,
            verbose,
            notes: RefCell::new(Vec::new()),
            steps: Cell::new(0),
            states: RefCell::new(Vec::new()),
            digest: Cell::new(0x1234_5678),
            nontrivial: Cell::new(false),
            worker,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Picks `q` in the quick tier, `t` in the thorough tier.
    pub fn by_tier<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn choose(&self, n: usize) -> usize {
        assert!(n > 0, "choose(0)");
        if n == 1 {
            return 0;
        }
        let mut tr = self.trace.borrow_mut();
        let i = tr.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            std::panic::panic_any(EngineDivergence(format!(
                "choice {i} = {c} out of range {n}: the harness is not deterministic"
            )));
        }
        tr.push((c, n as u32));
        c as usize
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    pub fn flag(&self) -> bool {
        self.choose(2) == 1
    }
    /// A choice whose non-default answers cost one deviation.
    pub fn choose_dev(&self, n: usize) -> usize {
        if n <= 1 || self.dev_used.get() >= self.budget.get() {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.dev_used.set(self.dev_used.get() + 1);
        }
        c
    }
    pub fn deviations(&self) -> u32 {
        self.dev_used.get()
    }
    /// One transition executed on the real code.
    pub fn step(&self) {
        self.steps.set(self.steps.get() + 1);
    }
    pub fn steps(&self, n: u64) {
        self.steps.set(self.steps.get() + n);
    }
    /// A model state reached by this execution.
    pub fn state(&self, h: u64) {
        self.states.borrow_mut().push(h);
    }
    /// Something the real code answered (for outcome counting and for the
    /// determinism self-check).
    pub fn observe(&self, h: u64) {
        self.digest.set(mix(self.digest.get(), h));
    }
    pub fn observe_bytes(&self, b: &[u8]) {
        self.observe(hash_bytes(b));
    }
    pub fn observe_str(&self, b: &str) {
        self.observe(hash_bytes(b.as_bytes()));
    }
    /// Marks the execution as exercising something non-trivial.
    pub fn nontrivial(&self) {
        self.nontrivial.set(true);
    }
    pub fn note(&self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.notes.borrow_mut().push(f());
        }
    }
    pub fn is_verbose(&self) -> bool {
        self.verbose
    }
}

struct EngineDivergence(String);

/// The library prints; its output goes to /dev/null while the engine keeps the
/// real standard output for itself.
static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);
fn say_str(mut s: String) {
    s.push('\n');
    let fd = OUT.load(Ordering::Relaxed);
    if fd == 1 {
        print!("{s}");
    } else {
        let mut b = s.as_bytes();
        while !b.is_empty() {
            let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
            if n <= 0 {
                break;
            }
            b = &b[n as usize..];
        }
    }
}
macro_rules! say {
    ($($a:tt)*) => { say_str(format!($($a)*)) };
}
fn mute_stdout() {
    unsafe {
        let keep = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if keep > 2 && null >= 0 {
            libc::dup2(null, 1);
            libc::close(null);
            OUT.store(keep, Ordering::Relaxed);
        }
    }
}

pub type HarnessFn = fn(&Ctx) -> R;

#[derive(Clone, Copy)]
pub struct Scenario {
    pub name: &'static str,
    pub f: HarnessFn,
    /// deviation budget in the quick and thorough tier
    pub dev: [u32; 2],
    /// part of the quick tier?
    pub quick: bool,
    /// seconds one execution may take before it counts as hanging
    pub limit_s: u64,
    /// maximum number of workers (memory-hungry scenarios)
    pub workers: usize,
}

impl Scenario {
    pub const fn new(name: &'static str, f: HarnessFn) -> Self {
        Scenario {
            name,
            f,
            dev: [0, 0],
            quick: true,
            limit_s: 90,
            workers: 8,
        }
    }
    pub const fn dev(mut self, q: u32, t: u32) -> Self {
        self.dev = [q, t];
        self
    }
    pub const fn thorough_only(mut self) -> Self {
        self.quick = false;
        self
    }
    pub const fn limit(mut self, s: u64) -> Self {
        self.limit_s = s;
        self
    }
    pub const fn workers(mut self, n: usize) -> Self {
        self.workers = n;
        self
    }
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub bounds: &'static str,
    pub assumptions: &'static [&'static str],
    pub scenarios: Vec<Scenario>,
}

const NSLOT: usize = 16;
const SLOT_CHOICES: usize = 4000;
#[repr(C)]
struct Slot {
    /// ms since start + 1 of the running execution, 0 when idle
    started: AtomicU64,
    scenario: AtomicU32,
    len: AtomicU32,
    data: [AtomicU32; SLOT_CHOICES],
}
#[repr(C)]
struct SharedMem {
    slots: [Slot; NSLOT],
}

fn map_shared() -> &'static SharedMem {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<SharedMem>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const SharedMem)
    }
}

#[derive(Default)]
struct Stats {
    executions: AtomicU64,
    pruned: AtomicU64,
    transitions: AtomicU64,
    nontrivial: AtomicU64,
    maxdepth: AtomicU64,
    choice_points: AtomicU64,
    rechecked: AtomicU64,
    dev_hist: [AtomicU64; 8],
}

struct Found {
    scenario: usize,
    choices: Vec<u32>,
    msg: String,
}

struct Sets {
    shards: Vec<Mutex<HashSet<u64>>>,
    full: AtomicBool,
}
const SET_CAP: usize = 60_000_000 / 64;
impl Sets {
    fn new() -> Self {
        Sets {
            shards: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            full: AtomicBool::new(false),
        }
    }
    fn insert(&self, h: u64) {
        let mut s = self.shards[(h & 63) as usize].lock().unwrap();
        if s.len() < SET_CAP {
            s.insert(h);
        } else {
            self.full.store(true, Ordering::Relaxed);
        }
    }
    fn len(&self) -> usize {
        self.shards.iter().map(|s| s.lock().unwrap().len()).sum()
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

struct RunResult {
    outcome: R,
    trace: Vec<(u32, u32)>,
    ctx: Ctx,
}

fn run_case(s: &Scenario, prefix: Vec<u32>, tier: Tier, verbose: bool, worker: usize) -> RunResult {
    let budget = s.dev[if tier == Tier::Thorough { 1 } else { 0 }];
    let plen = prefix.len();
    let ctx = Ctx::new(prefix, tier, budget, verbose, worker);
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| (s.f)(&ctx)));
    let outcome = match r {
        Ok(o) => o,
        Err(e) => {
            if let Some(d) = e.downcast_ref::<EngineDivergence>() {
                Err(Stop::Engine(d.0.clone()))
            } else {
                let (loc, msg) = LAST_PANIC
                    .with(|p| p.borrow_mut().take())
                    .unwrap_or_default();
                // a panic raised by harness code is a harness error
                if loc.starts_with("src/") || loc.contains("/verif/") || loc.contains("mclib/") {
                    Err(Stop::Engine(format!("harness panic at {loc}: {msg}")))
                } else {
                    viol(format!("panic at {loc}: {msg}"))
                }
            }
        }
    };
    let trace = ctx.trace.borrow().clone();
    let outcome = if trace.len() < plen && !matches!(outcome, Err(Stop::Engine(_))) {
        Err(Stop::Engine(format!(
            "replayed prefix of {plen} choices but only {} choice points were met: the harness is not deterministic",
            trace.len()
        )))
    } else {
        outcome
    };
    RunResult {
        outcome,
        trace,
        ctx,
    }
}

pub struct Options {
    pub tier: Tier,
    pub seed: u64,
    pub verif: PathBuf,
    pub wall_cap: Duration,
    pub only: Option<String>,
}

struct ScenarioReport {
    name: &'static str,
    executions: u64,
    pruned: u64,
    transitions: u64,
    states: usize,
    outcomes: usize,
    nontrivial: u64,
    maxdepth: u64,
    choice_points: u64,
    rechecked: u64,
    dev: Vec<u64>,
    samples: Vec<String>,
    wall: f64,
    complete: bool,
}

/// Reads `finding: property=<id> key=<key> ...` lines.
fn known_keys(verif: &Path, id: &str) -> Vec<(String, String)> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(verif.join("KNOWN_FINDINGS.txt")) {
        for l in s.lines() {
            let Some(rest) = l.strip_prefix("finding:") else {
                continue;
            };
            let mut it = rest.split_whitespace();
            if it.next() != Some(&format!("property={id}")) {
                continue;
            }
            let Some(k) = it.next().and_then(|k| k.strip_prefix("key=")) else {
                continue;
            };
            v.push((k.to_string(), it.collect::<Vec<_>>().join(" ")));
        }
    }
    v
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Explorer<'a> {
    prop: &'a Property,
    opt: &'a Options,
    shm: &'static SharedMem,
    t0: Instant,
    known: Vec<(String, String)>,
}

fn now_ms(t0: Instant) -> u64 {
    t0.elapsed().as_millis() as u64 + 1
}

impl<'a> Explorer<'a> {
    fn explore(
        &self,
        si: usize,
        deadline: Instant,
        known_hits: &Mutex<BTreeMap<String, u64>>,
    ) -> Result<ScenarioReport, Result<Found, String>> {
        let s = &self.prop.scenarios[si];
        let started = Instant::now();
        let stats = Stats::default();
        let states = Sets::new();
        let outcomes = Sets::new();
        let queue: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![vec![]]);
        let shared_len = AtomicUsize::new(1);
        let pending = AtomicUsize::new(1); // prefixes not yet fully processed
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
        let engine_err: Mutex<Option<String>> = Mutex::new(None);
        let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
        let nw = std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
            .clamp(1, NSLOT)
            .min(s.workers);
        std::thread::scope(|sc| {
            for w in 0..nw {
                let (stats, states, outcomes, queue, shared_len, pending, stop, capped, found, engine_err, samples) = (
                    &stats, &states, &outcomes, &queue, &shared_len, &pending, &stop, &capped,
                    &found, &engine_err, &samples,
                );
                let me = self;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let slot = &me.shm.slots[w];
                        let mut local: Vec<Vec<u32>> = Vec::new();
                        let mut n_exec = 0u64;
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if Instant::now() > deadline {
                                capped.store(true, Ordering::Relaxed);
                                break;
                            }
                            let job = match local.pop() {
                                Some(j) => Some(j),
                                None => {
                                    let mut q = queue.lock().unwrap();
                                    let j = q.pop();
                                    shared_len.store(q.len(), Ordering::Relaxed);
                                    j
                                }
                            };
                            let Some(prefix) = job else {
                                if pending.load(Ordering::SeqCst) == 0 {
                                    break;
                                }
                                std::thread::sleep(Duration::from_micros(200));
                                continue;
                            };
                            // publish what we are about to run
                            let n = prefix.len().min(SLOT_CHOICES);
                            for (i, c) in prefix.iter().take(n).enumerate() {
                                slot.data[i].store(*c, Ordering::Relaxed);
                            }
                            slot.len.store(n as u32, Ordering::Relaxed);
                            slot.scenario.store(si as u32, Ordering::Relaxed);
                            slot.started.store(now_ms(me.t0), Ordering::SeqCst);
                            let plen = prefix.len();
                            let rr = run_case(s, prefix, me.opt.tier, false, w);
                            slot.started.store(0, Ordering::SeqCst);
                            n_exec += 1;
                            let choices: Vec<u32> = rr.trace.iter().map(|t| t.0).collect();
                            match rr.outcome {
                                Err(Stop::Engine(e)) => {
                                    let mut g = engine_err.lock().unwrap();
                                    if g.is_none() {
                                        *g = Some(format!(
                                            "scenario {}: {e} (choices {choices:?})",
                                            s.name
                                        ));
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                                Err(Stop::Violation { ref msg, ref key }) => {
                                    let is_known = key
                                        .as_ref()
                                        .map_or(false, |k| me.known.iter().any(|(q, _)| q == k));
                                    if is_known {
                                        *known_hits
                                            .lock()
                                            .unwrap()
                                            .entry(key.clone().unwrap())
                                            .or_insert(0) += 1;
                                        stats.executions.fetch_add(1, Ordering::Relaxed);
                                    } else {
                                        found.lock().unwrap().push(Found {
                                            scenario: si,
                                            choices: choices.clone(),
                                            msg: msg.clone(),
                                        });
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                }
                                Err(Stop::Prune) => {
                                    stats.pruned.fetch_add(1, Ordering::Relaxed);
                                }
                                Ok(()) => {
                                    let k = stats.executions.fetch_add(1, Ordering::Relaxed);
                                    stats
                                        .transitions
                                        .fetch_add(rr.ctx.steps.get(), Ordering::Relaxed);
                                    if rr.ctx.nontrivial.get() {
                                        stats.nontrivial.fetch_add(1, Ordering::Relaxed);
                                    }
                                    stats.dev_hist[(rr.ctx.dev_used.get() as usize).min(7)]
                                        .fetch_add(1, Ordering::Relaxed);
                                    for h in rr.ctx.states.borrow().iter() {
                                        states.insert(*h);
                                    }
                                    outcomes.insert(rr.ctx.digest.get());
                                    // self-check: a replay must behave identically
                                    if k < 3 || k % 997 == 0 {
                                        let r2 =
                                            run_case(s, choices.clone(), me.opt.tier, true, w);
                                        stats.rechecked.fetch_add(1, Ordering::Relaxed);
                                        if r2.trace != rr.trace
                                            || r2.ctx.digest.get() != rr.ctx.digest.get()
                                            || r2.outcome.is_err()
                                        {
                                            if let Err(Stop::Violation { msg, .. }) = r2.outcome {
                                                found.lock().unwrap().push(Found {
                                                    scenario: si,
                                                    choices: choices.clone(),
                                                    msg,
                                                });
                                            } else {
                                                *engine_err.lock().unwrap() = Some(format!(
                                                    "scenario {}: replay of {choices:?} diverged",
                                                    s.name
                                                ));
                                            }
                                            stop.store(true, Ordering::Relaxed);
                                            break;
                                        }
                                        let mut sm = samples.lock().unwrap();
                                        if sm.len() < 4 && (k == 0 || k % 997 == 0 || sm.len() < 2) {
                                            let mut n = r2.ctx.notes.borrow().join("; ");
                                            if n.len() > 600 {
                                                let mut e = 600;
                                                while !n.is_char_boundary(e) {
                                                    e -= 1;
                                                }
                                                n.truncate(e);
                                                n.push_str("...");
                                            }
                                            sm.push(format!(
                                                "{} choices={:?}: {}",
                                                s.name, choices, n
                                            ));
                                        }
                                    }
                                }
                            }
                            stats
                                .maxdepth
                                .fetch_max(rr.trace.len() as u64, Ordering::Relaxed);
                            let mut added = 0usize;
                            for i in plen..rr.trace.len() {
                                let (_, n) = rr.trace[i];
                                stats.choice_points.fetch_add(1, Ordering::Relaxed);
                                for alt in (1..n).rev() {
                                    let mut p = Vec::with_capacity(i + 1);
                                    p.extend_from_slice(&choices[..i]);
                                    p.push(alt);
                                    local.push(p);
                                    added += 1;
                                }
                            }
                            pending.fetch_add(added, Ordering::SeqCst);
                            pending.fetch_sub(1, Ordering::SeqCst);
                            // share work when others may be idle
                            if local.len() > 1 && shared_len.load(Ordering::Relaxed) < nw {
                                let give = (local.len() / 2).min(256);
                                let mut q = queue.lock().unwrap();
                                q.extend(local.drain(..give));
                                shared_len.store(q.len(), Ordering::Relaxed);
                            }
                        }
                        let _ = n_exec;
                    })
                    .expect("spawn worker");
            }
        });
        if let Some(e) = engine_err.into_inner().unwrap() {
            // a violation found at the same time is still a violation
            let mut f = found.into_inner().unwrap();
            if let Some(x) = f.pop() {
                return Err(Ok(x));
            }
            return Err(Err(e));
        }
        let mut f = found.into_inner().unwrap();
        f.sort_by_key(|x| (x.choices.len(), x.choices.clone()));
        if !f.is_empty() {
            return Err(Ok(f.remove(0)));
        }
        Ok(ScenarioReport {
            name: s.name,
            executions: stats.executions.into_inner(),
            pruned: stats.pruned.into_inner(),
            transitions: stats.transitions.into_inner(),
            states: states.len(),
            outcomes: outcomes.len(),
            nontrivial: stats.nontrivial.into_inner(),
            maxdepth: stats.maxdepth.into_inner(),
            choice_points: stats.choice_points.into_inner(),
            rechecked: stats.rechecked.into_inner(),
            dev: stats.dev_hist.iter().map(|a| a.load(Ordering::Relaxed)).collect(),
            samples: samples.into_inner().unwrap(),
            wall: started.elapsed().as_secs_f64(),
            complete: !capped.into_inner() && !states.full.into_inner(),
        })
    }

    fn write_replay(&self, f: &Found, notes: &[String]) -> PathBuf {
        let dir = self.opt.verif.join("evidence/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.txt", self.prop.id));
        let tier = if self.opt.tier == Tier::Quick { "quick" } else { "thorough" };
        let mut t = String::new();
        let _ = writeln!(t, "property: {}", self.prop.id);
        let _ = writeln!(t, "scenario: {}", self.prop.scenarios[f.scenario].name);
        let _ = writeln!(t, "tier: {tier}");
        let _ = writeln!(
            t,
            "choices: {}",
            f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")
        );
        let _ = writeln!(t, "violation: {}", f.msg.replace('\n', " | "));
        for n in notes {
            let _ = writeln!(t, "  {}", n.replace('\n', " | "));
        }
        let _ = std::fs::write(&path, t);
        path
    }

    fn evidence(&self, reps: &[ScenarioReport], violations: u64, known: &BTreeMap<String, u64>, extra: &str) {
        let tier = if self.opt.tier == Tier::Quick { "quick" } else { "thorough" };
        let sum = |f: &dyn Fn(&ScenarioReport) -> u64| reps.iter().map(|r| f(r)).sum::<u64>();
        let mut o = String::new();
        let complete = !reps.is_empty() && reps.iter().all(|r| r.complete) && violations == 0;
        let _ = write!(
            o,
            "{{\n \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n",
            json_str(self.prop.id),
            self.opt.seed,
            json_str(self.prop.level)
        );
        if self.prop.level == "fault_enumeration" || self.prop.level == "exploration" {
            let _ = write!(
                o,
                "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
                sum(&|r| r.executions),
                sum(&|r| r.nontrivial.min(r.executions)),
                json_str(self.prop.rule)
            );
        } else {
            let _ = write!(
                o,
                "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"rule\": {},\n",
                sum(&|r| r.states as u64),
                sum(&|r| r.transitions),
                sum(&|r| r.executions),
                json_str(self.prop.rule)
            );
        }
        let _ = write!(
            o,
            "  \"exhaustive\": {complete},\n  \"bounds\": {},\n  \"distinct_outcomes\": {},\n  \"choice_points\": {},\n  \"replay_self_checks\": {},\n",
            json_str(self.prop.bounds),
            sum(&|r| r.outcomes as u64),
            sum(&|r| r.choice_points),
            sum(&|r| r.rechecked)
        );
        o.push_str("  \"scenarios\": [\n");
        for (i, r) in reps.iter().enumerate() {
            let _ = write!(
                o,
                "   {{\"name\": {}, \"executions\": {}, \"pruned\": {}, \"transitions\": {}, \"states\": {}, \"outcomes\": {}, \"nontrivial\": {}, \"max_choices\": {}, \"by_deviations\": {:?}, \"complete\": {}, \"wall_s\": {:.2}}}{}\n",
                json_str(r.name), r.executions, r.pruned, r.transitions, r.states, r.outcomes, r.nontrivial,
                r.maxdepth, r.dev, r.complete, r.wall,
                if i + 1 < reps.len() { "," } else { "" }
            );
        }
        o.push_str("  ],\n  \"known_findings\": {");
        o.push_str(
            &known
                .iter()
                .map(|(k, n)| format!("{}: {n}", json_str(k)))
                .collect::<Vec<_>>()
                .join(", "),
        );
        o.push_str("},\n  \"samples\": [\n");
        let all: Vec<String> = reps.iter().flat_map(|r| r.samples.iter().cloned()).collect();
        o.push_str(
            &all.iter()
                .map(|s| format!("   {}", json_str(s)))
                .collect::<Vec<_>>()
                .join(",\n"),
        );
        let _ = write!(o, "\n  ]{}\n }},\n", extra);
        let _ = write!(
            o,
            " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {violations}\n}}\n",
            self.prop
                .assumptions
                .iter()
                .map(|s| json_str(s))
                .collect::<Vec<_>>()
                .join(", "),
            self.t0.elapsed().as_secs_f64()
        );
        let dir = self.opt.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join(format!("{}.json", self.prop.id)), o);
    }

    fn report_violation(&self, f: &Found, notes: &[String], reps: &[ScenarioReport], known: &BTreeMap<String, u64>) {
        let path = self.write_replay(f, notes);
        say!("scenario {}: {}", self.prop.scenarios[f.scenario].name, f.msg);
        for n in notes {
            say!("    {n}");
        }
        self.evidence(reps, 1, known, "");
        say!("VIOLATION property={} replay={}", self.prop.id, path.display());
    }

    /// Runs in the child process. Returns the exit code.
    fn child(&self) -> i32 {
        install_hook();
        mute_stdout();
        let known_hits = Mutex::new(BTreeMap::new());
        let mut reps: Vec<ScenarioReport> = Vec::new();
        let deadline = self.t0 + self.opt.wall_cap;
        for (si, s) in self.prop.scenarios.iter().enumerate() {
            if self.opt.tier == Tier::Quick && !s.quick {
                continue;
            }
            if let Some(o) = &self.opt.only {
                if !s.name.contains(o.as_str()) {
                    continue;
                }
            }
            match self.explore(si, deadline, &known_hits) {
                Ok(r) => {
                    say!(
                        "{} {}: executions={} pruned={} transitions={} states={} outcomes={} complete={} {:.1}s",
                        self.prop.id, r.name, r.executions, r.pruned, r.transitions, r.states, r.outcomes, r.complete, r.wall
                    );
                    reps.push(r);
                }
                Err(Err(e)) => {
                    eprintln!("ENGINE ERROR: {e}");
                    return 2;
                }
                Err(Ok(f)) => {
                    // confirm by replaying
                    let mut notes = vec![];
                    let mut msg = None;
                    for _ in 0..5 {
                        let r = run_case(&self.prop.scenarios[si], f.choices.clone(), self.opt.tier, true, 0);
                        if let Err(Stop::Violation { msg: m, .. }) = r.outcome {
                            notes = r.ctx.notes.borrow().clone();
                            msg = Some(m);
                            break;
                        }
                    }
                    let Some(m) = msg else {
                        eprintln!("ENGINE ERROR: violation not reproducible: {} ({:?})", f.msg, f.choices);
                        return 2;
                    };
                    let f = Found { msg: m, ..f };
                    self.report_violation(&f, &notes, &reps, &known_hits.lock().unwrap());
                    return 1;
                }
            }
        }
        let kh = known_hits.into_inner().unwrap();
        self.evidence(&reps, 0, &kh, "");
        for (k, d) in &self.known {
            if kh.contains_key(k) {
                say!("KNOWN-FINDING: property={} {k}: {d}", self.prop.id);
            }
        }
        if reps.iter().any(|r| r.executions == 0) {
            eprintln!("ENGINE ERROR: a scenario ran no execution");
            return 2;
        }
        0
    }
}

fn limit_memory(gb: u64) {
    unsafe {
        let l = libc::rlimit {
            rlim_cur: gb << 30,
            rlim_max: gb << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

enum Ended {
    Exit(i32),
    Crash(i32),
    Hang(usize),
}

fn supervise(pid: i32, shm: &SharedMem, t0: Instant, limit: &dyn Fn(u32) -> u64) -> Ended {
    loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            if libc::WIFEXITED(st) {
                return Ended::Exit(libc::WEXITSTATUS(st));
            }
            return Ended::Crash(if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { -1 });
        }
        if r < 0 {
            return Ended::Crash(-2);
        }
        let now = now_ms(t0);
        for (i, s) in shm.slots.iter().enumerate() {
            let st = s.started.load(Ordering::SeqCst);
            if st != 0 && now > st && now - st > limit(s.scenario.load(Ordering::Relaxed)) * 1000 {
                unsafe {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut 0, 0);
                }
                return Ended::Hang(i);
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// Runs a property's check: returns the process exit code.
pub fn check(prop: &Property, opt: &Options) -> i32 {
    let t0 = Instant::now();
    let shm = map_shared();
    let known = known_keys(&opt.verif, prop.id);
    let ex = Explorer { prop, opt, shm, t0, known };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        limit_memory(28);
        let code = ex.child();
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(code) };
    }
    let limit = |si: u32| prop.scenarios.get(si as usize).map_or(90, |s| s.limit_s);
    let ended = supervise(pid, shm, t0, &limit);
    let (why, only) = match ended {
        Ended::Exit(c) if (0..=2).contains(&c) => return c,
        Ended::Exit(c) => (format!("exit status {c}"), None),
        Ended::Crash(s) => (format!("killed by signal {s}"), None),
        Ended::Hang(i) => ("an execution exceeded its time limit".to_string(), Some(i)),
    };
    eprintln!("exploration process ended: {why}; re-running the executions in progress one by one");
    // collect the executions in progress
    let mut cands = Vec::new();
    for (i, s) in shm.slots.iter().enumerate() {
        if s.started.load(Ordering::SeqCst) != 0 && only.map_or(true, |o| o == i) {
            let n = s.len.load(Ordering::Relaxed) as usize;
            cands.push((
                s.scenario.load(Ordering::Relaxed) as usize,
                (0..n).map(|k| s.data[k].load(Ordering::Relaxed)).collect::<Vec<u32>>(),
            ));
        }
        s.started.store(0, Ordering::SeqCst);
    }
    for (si, choices) in cands {
        let Some(s) = prop.scenarios.get(si) else { continue };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            limit_memory(20);
            install_hook();
            shm.slots[0].scenario.store(si as u32, Ordering::Relaxed);
            shm.slots[0].started.store(now_ms(t0), Ordering::SeqCst);
            let (s, ch, tier) = (*s, choices.clone(), opt.tier);
            let h = std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let r = run_case(&s, ch, tier, false, 0);
                    match r.outcome {
                        Err(Stop::Violation { .. }) => 1,
                        Err(Stop::Engine(_)) => 2,
                        _ => 0,
                    }
                })
                .unwrap();
            let c = h.join().unwrap_or(2);
            unsafe { libc::_exit(c) };
        }
        let e = supervise(pid, shm, t0, &|_| limit(si as u32) * 2);
        shm.slots[0].started.store(0, Ordering::SeqCst);
        let msg = match e {
            Ended::Crash(sig) => format!("the process is killed by signal {sig} (abort, stack overflow or memory exhaustion)"),
            Ended::Hang(_) => format!("no result within {} s: the operation does not terminate", limit(si as u32) * 2),
            Ended::Exit(1) => "violation while re-running after a crash".to_string(),
            Ended::Exit(_) => continue,
        };
        let f = Found { scenario: si, choices, msg };
        ex.report_violation(&f, &["(re-run alone; the failing execution ended the process)".to_string()], &[], &BTreeMap::new());
        return 1;
    }
    eprintln!("ENGINE ERROR: {why}, not reproduced by any execution in progress");
    2
}

/// Replays a file written by a failing check. Exit 1 when it still fails.
pub fn replay(props: &[Property], path: &Path) -> i32 {
    let Ok(t) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path.display());
        return 2;
    };
    let get = |k: &str| {
        t.lines()
            .find_map(|l| l.strip_prefix(&format!("{k}: ")).or(l.strip_prefix(&format!("{k}:"))))
            .unwrap_or("")
            .trim()
            .to_string()
    };
    let (pid, sc, tier) = (get("property"), get("scenario"), get("tier"));
    let choices: Vec<u32> = get("choices").split_whitespace().filter_map(|c| c.parse().ok()).collect();
    let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    for p in props.iter().filter(|p| p.id == pid) {
        for s in p.scenarios.iter().filter(|s| s.name == sc) {
            install_hook();
            let r = run_case(s, choices.clone(), tier, true, 0);
            for n in r.ctx.notes.borrow().iter() {
                println!("  {n}");
            }
            match r.outcome {
                Err(Stop::Violation { msg, .. }) => {
                    println!("VIOLATION property={} replay={}\n{msg}", p.id, path.display());
                    return 1;
                }
                Err(Stop::Engine(e)) => {
                    eprintln!("ENGINE ERROR: {e}");
                    return 2;
                }
                Err(Stop::Prune) | Ok(()) => {
                    println!("no violation");
                    return 0;
                }
            }
        }
    }
    eprintln!("unknown property/scenario {pid} {sc}");
    2
}

/// Standard command line: `check <ID>`, `replay <file>`, `list`.
pub fn main_with(props: Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let cap = std::env::var("VERIF_WALL_CAP")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == Tier::Quick { 400 } else { 4 * 3600 });
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = args.get(2).cloned().unwrap_or_default();
            match props.iter().find(|p| p.id == id) {
                Some(p) => {
                    let opt = Options {
                        tier,
                        seed,
                        verif,
                        wall_cap: Duration::from_secs(cap),
                        only: args.get(3).cloned(),
                    };
                    check(p, &opt)
                }
                None => {
                    eprintln!("unknown property {id}");
                    2
                }
            }
        }
        Some("replay") => replay(&props, Path::new(args.get(2).map(|s| s.as_str()).unwrap_or(""))),
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: check <ID> [scenario] | replay <file> | list");
            2
        }
    };
    std::process::exit(code)
}

pub fn arc<T>(t: T) -> Arc<T> {
    Arc::new(t)
}
