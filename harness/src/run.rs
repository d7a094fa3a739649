//! The engine: fixed-work, seeded, sharded proptest runs with shrinking, counting and replay.
use crate::drive::{HarnessError, RUNTIME};
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Default, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// Executions inside this case (sessions run, strings tried), at least 1.
    pub execs: u64,
}

impl Info {
    pub fn new(nontrivial: bool) -> Info {
        Info { nontrivial, labels: vec![], execs: 1 }
    }
    pub fn label(mut self, on: bool, l: &'static str) -> Info {
        if on {
            self.labels.push(l);
        }
        self
    }
    pub fn execs(mut self, n: u64) -> Info {
        self.execs = n;
        self
    }
}

pub enum Mode {
    Check,
    Replay { part: String, case: Value },
}

pub struct Ctx {
    pub id: String,
    pub mode: Mode,
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    pub scale: f64,
    pub rule: String,
    pub cases: u64,
    pub execs: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub parts: Vec<Value>,
    pub violation: Option<Value>,
    pub error: Option<String>,
    pub replayed: bool,
}

#[derive(Default)]
struct Tally {
    cases: u64,
    execs: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    failed: bool,
}

fn hash_of<C: Hash>(part: &str, c: &C) -> u64 {
    let mut h = DefaultHasher::new();
    part.hash(&mut h);
    c.hash(&mut h);
    h.finish()
}

fn seed_bytes(parts: &[&dyn Debug]) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let mut h = DefaultHasher::new();
        i.hash(&mut h);
        for p in parts {
            format!("{p:?}").hash(&mut h);
        }
        out[i as usize * 8..][..8].copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}

fn clip(v: Value) -> Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v
    } else {
        let mut n = 1500;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        Value::String(format!("{}... [{} characters]", &s[..n], s.len()))
    }
}

/// Runs a check on a case; panics of the harness itself come back as `Err(Err(..))`.
fn call<C>(check: &(impl Fn(&C) -> Result<Info, String> + ?Sized), c: &C) -> Result<Result<Info, String>, String> {
    match catch_unwind(AssertUnwindSafe(|| check(c))) {
        Ok(r) => Ok(r),
        Err(p) => Err(match p.downcast::<HarnessError>() {
            Ok(e) => e.0,
            Err(p) => match p.downcast::<String>() {
                Ok(s) => *s,
                Err(p) => p.downcast::<&'static str>().map(|s| s.to_string()).unwrap_or_else(|_| "panic".into()),
            },
        }),
    }
}

/// How long one case may run before it counts as stuck.
const STUCK_S: u64 = 60;

/// The case a worker is running, for the watchdog. The worker clears it before the case goes away.
#[derive(Default)]
struct Slot(Mutex<Option<(Instant, usize)>>);

static JOURNAL: OnceLock<Option<std::ffi::OsString>> = OnceLock::new();

impl Slot {
    fn run<C: Serialize, R>(&self, th: usize, part: &str, c: &C, f: impl FnOnce() -> R) -> R {
        if let Some(dir) = JOURNAL.get_or_init(|| std::env::var_os("HARNESS_JOURNAL")) {
            let v = json!({"part": part, "runtime": RUNTIME, "case": c});
            let _ = std::fs::write(std::path::Path::new(dir).join(format!("{th}.json")), v.to_string());
        }
        *self.0.lock().unwrap() = Some((Instant::now(), c as *const C as usize));
        let r = f();
        *self.0.lock().unwrap() = None;
        r
    }
}

/// Runs until `done`; when a case is stuck, prints the report with that case and ends the process.
fn watchdog<C: Serialize>(ctx: &Value, part: &str, slots: &[Slot], done: &AtomicUsize) {
    while done.load(Ordering::SeqCst) < slots.len() {
        std::thread::sleep(Duration::from_millis(5));
        for s in slots {
            let guard = s.0.lock().unwrap();
            if let Some((start, p)) = *guard {
                if start.elapsed().as_secs() >= STUCK_S {
                    // Safety: the worker holds the case until it has cleared the slot, which is locked here.
                    let c: &C = unsafe { &*(p as *const C) };
                    let mut r = ctx.clone();
                    r["violation"] = json!({
                        "property": ctx["property"], "part": part, "runtime": RUNTIME,
                        "message": format!("still running after {STUCK_S} s"), "case": serde_json::to_value(c).unwrap(),
                    });
                    println!("{r}");
                    std::process::exit(0);
                }
            }
        }
    }
}

impl Ctx {
    pub fn new(id: &str, mode: Mode, thorough: bool, seed: u64, threads: usize, scale: f64) -> Ctx {
        Ctx {
            id: id.into(),
            mode,
            thorough,
            seed,
            threads,
            scale,
            rule: String::new(),
            cases: 0,
            execs: 0,
            distinct: HashSet::new(),
            labels: BTreeMap::new(),
            samples: vec![],
            parts: vec![],
            violation: None,
            error: None,
            replayed: false,
        }
    }

    fn skip<C: DeserializeOwned>(&mut self, part: &str, check: &dyn Fn(&C) -> Result<Info, String>) -> bool {
        if let Mode::Replay { part: p, case } = &self.mode {
            if p == part {
                self.replayed = true;
                match serde_json::from_value::<C>(case.clone()) {
                    Err(e) => self.error = Some(format!("cannot read the case: {e}")),
                    Ok(c) => match call(check, &c) {
                        Err(e) => self.error = Some(e),
                        Ok(Err(m)) => {
                            self.violation =
                                Some(json!({"property": self.id, "part": part, "runtime": RUNTIME, "case": case, "message": m}))
                        }
                        Ok(Ok(_)) => {}
                    },
                }
            }
            return true;
        }
        self.violation.is_some() || self.error.is_some()
    }

    fn absorb<C: Serialize>(&mut self, part: &str, tallies: Vec<Tally>, bad: Option<(C, String)>, err: Option<String>) {
        let mut cases = 0;
        let mut nontrivial = 0;
        for t in tallies {
            cases += t.cases;
            nontrivial += t.nontrivial;
            self.execs += t.execs;
            self.distinct.extend(t.distinct);
            for (l, n) in t.labels {
                *self.labels.entry(format!("{part}: {l}")).or_default() += n;
            }
            self.samples.extend(t.samples);
        }
        self.cases += cases;
        self.parts.push(json!({"part": part, "cases": cases, "nontrivial": nontrivial}));
        if let Some(e) = err {
            self.error = Some(format!("{part}: {e}"));
        }
        if let Some((c, m)) = bad {
            self.violation = Some(json!({
                "property": self.id, "part": part, "runtime": RUNTIME, "message": m,
                "case": serde_json::to_value(&c).unwrap(),
            }));
        }
    }

    /// Generated cases.
    pub fn random<C>(
        &mut self,
        part: &str,
        quick: u32,
        thorough: u32,
        strategy: impl Fn() -> BoxedStrategy<C> + Sync,
        check: impl Fn(&C) -> Result<Info, String> + Sync,
    ) where
        C: Debug + Clone + Hash + Serialize + DeserializeOwned + Send + 'static,
    {
        if self.skip(part, &check) {
            return;
        }
        let total = ((if self.thorough { thorough } else { quick }) as f64 * self.scale).ceil() as u32;
        let threads = self.threads;
        let per = (total as usize).div_ceil(threads) as u32;
        let stop = AtomicBool::new(false);
        let tallies = Mutex::new(vec![]);
        let bad: Mutex<Option<(C, String)>> = Mutex::new(None);
        let err: Mutex<Option<String>> = Mutex::new(None);
        let (id, seed) = (&self.id, self.seed);
        let slots: Vec<Slot> = (0..threads).map(|_| Slot::default()).collect();
        let done = AtomicUsize::new(0);
        let so_far = self.report();
        std::thread::scope(|sc| {
            sc.spawn(|| watchdog::<C>(&so_far, part, &slots, &done));
            for th in 0..threads {
                let (slot, done) = (&slots[th], &done);
                let (stop, tallies, bad, err, strategy, check) = (&stop, &tallies, &bad, &err, &strategy, &check);
                sc.spawn(move || {
                    let rng = TestRng::from_seed(
                        RngAlgorithm::ChaCha,
                        &seed_bytes(&[&seed, id, &part, &RUNTIME, &th]),
                    );
                    let cfg = Config {
                        cases: per,
                        failure_persistence: None,
                        max_shrink_iters: 20_000,
                        max_shrink_time: 30_000,
                        max_local_rejects: 1_000_000,
                        max_global_rejects: 1_000_000,
                        ..Config::default()
                    };
                    let mut runner = TestRunner::new_with_rng(cfg, rng);
                    let tally = RefCell::new(Tally::default());
                    let last: RefCell<Option<String>> = RefCell::new(None);
                    let r = runner.run(&strategy(), |c| {
                        let mut t = tally.borrow_mut();
                        if !t.failed && stop.load(Ordering::Relaxed) {
                            return Ok(());
                        }
                        if last.borrow().is_some() {
                            return Ok(());
                        }
                        match slot.run(th, part, &c, || call(check, &c)) {
                            Err(e) => {
                                *last.borrow_mut() = Some(e);
                                Ok(())
                            }
                            Ok(Err(m)) => {
                                t.failed = true;
                                stop.store(true, Ordering::Relaxed);
                                Err(TestCaseError::fail(m))
                            }
                            Ok(Ok(i)) => {
                                if !t.failed {
                                    t.cases += 1;
                                    t.execs += i.execs.max(1);
                                    for l in &i.labels {
                                        *t.labels.entry(l).or_default() += 1;
                                    }
                                    if i.nontrivial {
                                        t.nontrivial += 1;
                                        let new = t.distinct.insert(hash_of(part, &c));
                                        if new && th == 0 && t.samples.len() < 2 {
                                            t.samples.push(json!({"part": part, "runtime": RUNTIME, "case": clip(serde_json::to_value(&c).unwrap())}));
                                        }
                                    }
                                }
                                Ok(())
                            }
                        }
                    });
                    if let Some(e) = last.borrow_mut().take() {
                        stop.store(true, Ordering::Relaxed);
                        *err.lock().unwrap() = Some(e);
                    }
                    match r {
                        Ok(()) => {}
                        Err(TestError::Fail(why, c)) => {
                            let mut b = bad.lock().unwrap();
                            if b.is_none() {
                                *b = Some((c, why.message().to_string()));
                            }
                        }
                        Err(TestError::Abort(why)) => *err.lock().unwrap() = Some(format!("generation aborted: {why}")),
                    }
                    tallies.lock().unwrap().push(tally.into_inner());
                    done.fetch_add(1, Ordering::SeqCst);
                });
            }
        });
        let (t, b, e) = (tallies.into_inner().unwrap(), bad.into_inner().unwrap(), err.into_inner().unwrap());
        self.absorb(part, t, b, e);
    }

    /// A finite space, enumerated completely and in order (so the first failure is a small one).
    pub fn enumerate<C>(
        &mut self,
        part: &str,
        n: usize,
        nth: impl Fn(usize) -> C + Sync,
        check: impl Fn(&C) -> Result<Info, String> + Sync,
    ) where
        C: Debug + Clone + Hash + Serialize + DeserializeOwned + Send + 'static,
    {
        if self.skip(part, &check) {
            return;
        }
        let next = AtomicUsize::new(0);
        let step = (n / (8 * self.threads)).clamp(1, 64);
        let stop = AtomicBool::new(false);
        let tallies = Mutex::new(vec![]);
        let bad: Mutex<Option<(usize, C, String)>> = Mutex::new(None);
        let err: Mutex<Option<String>> = Mutex::new(None);
        let slots: Vec<Slot> = (0..self.threads).map(|_| Slot::default()).collect();
        let done = AtomicUsize::new(0);
        let so_far = self.report();
        std::thread::scope(|sc| {
            sc.spawn(|| watchdog::<C>(&so_far, part, &slots, &done));
            for th in 0..self.threads {
                let (slot, done) = (&slots[th], &done);
                let (next, stop, tallies, bad, err, nth, check) = (&next, &stop, &tallies, &bad, &err, &nth, &check);
                sc.spawn(move || {
                    let mut t = Tally::default();
                    'all: loop {
                        let from = next.fetch_add(step, Ordering::Relaxed);
                        if from >= n || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        for i in from..(from + step).min(n) {
                            let c = nth(i);
                            match slot.run(th, part, &c, || call(check, &c)) {
                                Err(e) => {
                                    *err.lock().unwrap() = Some(e);
                                    stop.store(true, Ordering::Relaxed);
                                    break 'all;
                                }
                                Ok(Err(m)) => {
                                    stop.store(true, Ordering::Relaxed);
                                    let mut b = bad.lock().unwrap();
                                    if b.as_ref().map_or(true, |x| x.0 > i) {
                                        *b = Some((i, c, m));
                                    }
                                    break 'all;
                                }
                                Ok(Ok(info)) => {
                                    t.cases += 1;
                                    t.execs += info.execs.max(1);
                                    for l in &info.labels {
                                        *t.labels.entry(l).or_default() += 1;
                                    }
                                    if info.nontrivial {
                                        t.nontrivial += 1;
                                        let new = t.distinct.insert(hash_of(part, &c));
                                        if new && th == 0 && t.samples.is_empty() {
                                            t.samples.push(json!({"part": part, "runtime": RUNTIME, "case": clip(serde_json::to_value(&c).unwrap())}));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    tallies.lock().unwrap().push(t);
                    done.fetch_add(1, Ordering::SeqCst);
                });
            }
        });
        let b = bad.into_inner().unwrap().map(|(_, c, m)| (c, m));
        let e = err.into_inner().unwrap();
        self.absorb(part, tallies.into_inner().unwrap(), b, e);
    }

    pub fn report(&self) -> Value {
        json!({
            "property": self.id, "runtime": RUNTIME, "seed": self.seed,
            "cases": self.cases, "execs": self.execs, "distinct_nontrivial": self.distinct.len(),
            "labels": self.labels, "samples": self.samples, "parts": self.parts, "rule": self.rule,
            "violation": self.violation, "error": self.error, "replayed": self.replayed,
        })
    }
}
