//! Exploration kit shared by all engines: exhaustive parallel enumeration of
//! finite case spaces, panic capture, hang/memory watchdog and result files.
//!
//! An engine is a program called as
//!     ENGINE --tier quick|thorough --out RESULT.json [--replay CASE.json]
//! It writes RESULT.json (see `Report::write`) and exits 0 whether or not
//! violations were found; any other exit status is an engine error.

use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value};
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Args {
    pub tier: Tier,
    pub out: String,
    pub replay: Option<Value>,
    pub extra: Vec<String>,
}

impl Args {
    pub fn parse() -> Args {
        let mut tier = Tier::Quick;
        let mut out = "/dev/stdout".to_string();
        let mut replay = None;
        let mut extra = vec![];
        let mut it = std::env::args().skip(1);
        while let Some(a) = it.next() {
            match a.as_str() {
                "--tier" => {
                    tier = match it.next().as_deref() {
                        Some("thorough") => Tier::Thorough,
                        _ => Tier::Quick,
                    }
                }
                "--out" => out = it.next().unwrap(),
                "--replay" => {
                    let s = std::fs::read_to_string(it.next().unwrap()).unwrap();
                    replay = Some(serde_json::from_str(&s).unwrap());
                }
                _ => extra.push(a),
            }
        }
        Args { tier, out, replay, extra }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Picks a bound by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
}

/// What one explored case contributed.
#[derive(Clone, Copy, Default, Debug)]
pub struct Seen {
    /// Steps of the real code (operations, calls, events) executed for the case.
    pub steps: u64,
    /// States visited inside the case (for cases that are themselves searches).
    pub states: u64,
    /// Hash of the observed outcome; used to count distinct outcomes.
    pub outcome: u64,
    /// Whether the case is non-trivial by the engine's rule.
    pub nontrivial: bool,
    /// Executions of the real code compared with the oracle in this case.
    pub execs: u64,
}

impl Seen {
    pub fn one(outcome: u64, nontrivial: bool) -> Seen {
        Seen { steps: 1, states: 0, outcome, nontrivial, execs: 1 }
    }
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::{BuildHasher, Hasher};
    let bh = std::hash::BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default();
    let mut h = bh.build_hasher();
    t.hash(&mut h);
    h.finish()
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_CASE: RefCell<bool> = const { RefCell::new(false) };
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let inside = IN_CASE.with(|x| *x.borrow());
        if inside {
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|x| *x.borrow_mut() = format!("{}{}", payload_str(info.payload()), loc));
        } else {
            old(info);
        }
    }));
}

/// Marker for a failed harness assumption: panics with it are engine errors,
/// not verdicts about the code under test.
pub const HARNESS: &str = "HARNESS-ERROR: ";

/// Runs code under test, turning a panic into an error message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_CASE.with(|x| std::mem::replace(&mut *x.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|x| *x.borrow_mut() = was);
    r.map_err(|p| {
        let s = LAST_PANIC.with(|x| x.borrow().clone());
        if s.is_empty() { payload_str(&*p) } else { s }
    })
}

pub struct Report {
    pub engine: String,
    pub cases: AtomicU64,
    pub steps: AtomicU64,
    pub states: AtomicU64,
    pub execs: AtomicU64,
    pub nontrivial: AtomicU64,
    outcomes: Vec<Mutex<HashSet<u64>>>,
    samples: Mutex<Vec<Value>>,
    violations: Mutex<Vec<Value>>,
    families: Mutex<Vec<Value>>,
    extra: Mutex<Map<String, Value>>,
    pub out: String,
    pub start: Instant,
    pub max_violations: usize,
    stop: AtomicBool,
    /// No new case is started after this long (the families say how far they got).
    soft: Duration,
}

impl Report {
    pub fn new(engine: &str, out: &str) -> Report {
        Report {
            engine: engine.to_string(),
            cases: AtomicU64::new(0),
            steps: AtomicU64::new(0),
            states: AtomicU64::new(0),
            execs: AtomicU64::new(0),
            nontrivial: AtomicU64::new(0),
            outcomes: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            samples: Mutex::new(vec![]),
            violations: Mutex::new(vec![]),
            families: Mutex::new(vec![]),
            extra: Mutex::new(Map::new()),
            out: out.to_string(),
            start: Instant::now(),
            max_violations: 3,
            stop: AtomicBool::new(false),
            soft: Duration::from_secs(std::env::var("MC_SOFT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(1 << 30)),
        }
    }

    /// Whether the time for starting new cases is over.
    pub fn late(&self) -> bool {
        self.start.elapsed() > self.soft
    }

    pub fn add(&self, s: &Seen) {
        self.steps.fetch_add(s.steps, Ordering::Relaxed);
        self.states.fetch_add(s.states, Ordering::Relaxed);
        self.execs.fetch_add(s.execs, Ordering::Relaxed);
        if s.nontrivial {
            self.nontrivial.fetch_add(1, Ordering::Relaxed);
        }
        let mut g = self.outcomes[(s.outcome % 64) as usize].lock().unwrap();
        if g.len() < 400_000 {
            g.insert(s.outcome);
        }
    }

    pub fn sample(&self, v: Value) {
        let mut g = self.samples.lock().unwrap();
        if g.len() < 40 {
            g.push(v);
        }
    }

    pub fn violation(&self, family: &str, case: Value, what: &str) {
        let mut g = self.violations.lock().unwrap();
        let what: String = what.chars().take(2000).collect();
        g.push(json!({"family": family, "case": case, "what": what}));
        if g.len() >= self.max_violations {
            self.stop.store(true, Ordering::Relaxed);
        }
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    pub fn n_violations(&self) -> usize {
        self.violations.lock().unwrap().len()
    }

    pub fn note(&self, key: &str, v: impl Into<Value>) {
        self.extra.lock().unwrap().insert(key.to_string(), v.into());
    }

    pub fn write(&self) {
        let outcomes: usize = self.outcomes.iter().map(|m| m.lock().unwrap().len()).sum();
        let v = json!({
            "engine": self.engine,
            "cases": self.cases.load(Ordering::Relaxed),
            "steps": self.steps.load(Ordering::Relaxed),
            "states": self.states.load(Ordering::Relaxed),
            "execs": self.execs.load(Ordering::Relaxed),
            "nontrivial": self.nontrivial.load(Ordering::Relaxed),
            "distinct_outcomes": outcomes,
            "samples": *self.samples.lock().unwrap(),
            "violations": *self.violations.lock().unwrap(),
            "families": *self.families.lock().unwrap(),
            "extra": Value::Object(self.extra.lock().unwrap().clone()),
            "wall_s": self.start.elapsed().as_secs_f64(),
        });
        let tmp = format!("{}.tmp", self.out);
        if self.out.starts_with("/dev/") {
            println!("{}", serde_json::to_string_pretty(&v).unwrap());
        } else {
            std::fs::write(&tmp, serde_json::to_string(&v).unwrap()).unwrap();
            std::fs::rename(&tmp, &self.out).unwrap();
        }
    }

    /// Explores `n` cases (built by index) with all cores. `f` runs one case
    /// and returns an error if the property is violated. A case running for
    /// longer than `hang` (well over a hundred times what it needs) is reported
    /// as not terminating.
    pub fn explore<C, G, F>(&self, family: &str, n: usize, hang: Duration, gen: G, f: F)
    where
        C: Serialize + DeserializeOwned + Send,
        G: Fn(usize) -> C + Sync,
        F: Fn(&C) -> Result<Seen, String> + Sync,
    {
        if self.stopped() {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let done = AtomicUsize::new(0);
        let slowest = AtomicU64::new(0);
        let nthreads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize).min(n.max(1));
        let current: Vec<Mutex<Option<(usize, Instant)>>> = (0..nthreads).map(|_| Mutex::new(None)).collect();
        let finished = AtomicBool::new(false);
        let sample_at: Vec<usize> = [n / 3, n.saturating_sub(1)].to_vec();
        let harness_error: Mutex<Option<String>> = Mutex::new(None);

        std::thread::scope(|s| {
            // Watchdog.
            s.spawn(|| {
                let gen = &gen;
                loop {
                    if finished.load(Ordering::Relaxed) {
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(20));
                    let rss = rss_mb();
                    let mut oldest: Option<(usize, Instant)> = None;
                    for c in &current {
                        if let Some(x) = *c.lock().unwrap() {
                            if oldest.map_or(true, |o| x.1 < o.1) {
                                oldest = Some(x);
                            }
                        }
                    }
                    if let Some((i, t)) = oldest {
                        let why = if t.elapsed() > hang {
                            Some(format!("did not terminate within {:?}", hang))
                        } else if rss > 20_000 {
                            Some(format!("memory grew to {} MB", rss))
                        } else {
                            None
                        };
                        if let Some(why) = why {
                            self.violation(family, serde_json::to_value(gen(i)).unwrap(), &why);
                            self.push_family(family, n, done.load(Ordering::Relaxed), t0, false, 0);
                            self.write();
                            std::process::exit(0);
                        }
                    }
                }
            });
            let mut hs = vec![];
            for t in 0..nthreads {
                let (next, done, slowest, current, gen, f, sample_at, harness_error) = (&next, &done, &slowest, &current, &gen, &f, &sample_at, &harness_error);
                let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n || self.stopped() || self.late() || harness_error.lock().unwrap().is_some() {
                        break;
                    }
                    let case = gen(i);
                    let began = Instant::now();
                    *current[t].lock().unwrap() = Some((i, began));
                    let r = match guarded(|| f(&case)) {
                        Ok(r) => r,
                        Err(p) => Err(format!("panic: {}", p)),
                    };
                    *current[t].lock().unwrap() = None;
                    slowest.fetch_max(began.elapsed().as_micros() as u64, Ordering::Relaxed);
                    done.fetch_add(1, Ordering::Relaxed);
                    self.cases.fetch_add(1, Ordering::Relaxed);
                    match r {
                        Ok(seen) => {
                            self.add(&seen);
                            if sample_at.contains(&i) {
                                let mut v = serde_json::to_value(&case).unwrap();
                                truncate_value(&mut v);
                                self.sample(json!({"family": family, "case": v}));
                            }
                        }
                        Err(what) => {
                            if what.contains(HARNESS) {
                                *harness_error.lock().unwrap() = Some(what);
                            } else {
                                self.violation(family, serde_json::to_value(&case).unwrap(), &what);
                            }
                        }
                    }
                });
                hs.push(h.unwrap());
            }
            for h in hs {
                h.join().unwrap();
            }
            finished.store(true, Ordering::Relaxed);
        });
        if let Some(e) = harness_error.lock().unwrap().take() {
            eprintln!("{}", e);
            let _ = std::fs::write(format!("{}.err", self.out), e);
            std::process::exit(3);
        }
        let d = done.load(Ordering::Relaxed);
        self.push_family(family, n, d, t0, d == n, slowest.load(Ordering::Relaxed));
    }

    pub fn push_family_raw(&self, v: Value) {
        self.families.lock().unwrap().push(v);
    }

    fn push_family(&self, family: &str, n: usize, done: usize, t0: Instant, complete: bool, slowest_us: u64) {
        self.families.lock().unwrap().push(json!({
            "family": family, "space": n, "explored": done, "complete": complete, "slowest_case_s": slowest_us as f64 / 1e6,
            "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        }));
    }
}

fn truncate_value(v: &mut Value) {
    match v {
        Value::String(s) if s.len() > 300 => {
            let t: String = s.chars().take(200).collect();
            *s = format!("{}... ({} bytes)", t, s.len());
        }
        Value::Array(a) => {
            if a.len() > 64 {
                a.truncate(64);
            }
            a.iter_mut().for_each(truncate_value);
        }
        Value::Object(o) => o.values_mut().for_each(truncate_value),
        _ => {}
    }
}

pub fn rss_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4 / 1024
}

/// Standard main: either replays one case or runs the exploration.
pub fn engine_main(name: &str, explore: impl FnOnce(&Args, &Report), replay: impl FnOnce(&str, Value) -> Result<(), String>) {
    install_panic_hook();
    let args = Args::parse();
    if let Some(r) = &args.replay {
        let family = r["family"].as_str().unwrap_or("").to_string();
        let res = match guarded(|| replay(&family, r["case"].clone())) {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {}", p)),
        };
        match res {
            Ok(()) => println!("replay: property holds on this case"),
            Err(e) => {
                println!("replay: VIOLATED: {}", e);
                std::process::exit(1);
            }
        }
        return;
    }
    let report = Report::new(name, &args.out);
    explore(&args, &report);
    report.write();
}

/// All strings over `alphabet` with length in lo..=hi, by index.
pub struct Words<T> {
    pub alphabet: Vec<T>,
    pub lo: usize,
    pub hi: usize,
}

impl<T: Clone> Words<T> {
    pub fn new(alphabet: Vec<T>, lo: usize, hi: usize) -> Self {
        Words { alphabet, lo, hi }
    }
    pub fn count(&self) -> usize {
        (self.lo..=self.hi).map(|l| self.alphabet.len().pow(l as u32)).sum()
    }
    pub fn get(&self, mut i: usize) -> Vec<T> {
        let k = self.alphabet.len();
        for l in self.lo..=self.hi {
            let n = k.pow(l as u32);
            if i < n {
                let mut v = Vec::with_capacity(l);
                for _ in 0..l {
                    v.push(self.alphabet[i % k].clone());
                    i /= k;
                }
                v.reverse();
                return v;
            }
            i -= n;
        }
        panic!("index out of range");
    }
}

/// All subsets of 0..n with at most k elements, smallest first.
pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        let mut nl = vec![];
        for s in &layer {
            let from = s.last().map_or(0, |x| x + 1);
            for i in from..n {
                let mut t = s.clone();
                t.push(i);
                nl.push(t);
            }
        }
        out.extend(nl.iter().cloned());
        layer = nl;
    }
    out
}
