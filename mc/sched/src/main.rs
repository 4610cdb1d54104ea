//! C06: all thread schedules (up to a preemption bound) of the real
//! `tokenize_file`, compiled against the controlled `std`.

use mckit::*;
use serde_json::{json, Value};
use shuttle::scheduler::{Schedule, Scheduler, Task, TaskId};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// One scheduling point: the enabled tasks (current first) and our choice.
#[derive(Clone, Debug)]
struct Point {
    enabled: Vec<usize>,
    choice: usize,
    /// Whether picking anything but the first is a preemption.
    preemptive: bool,
    /// Whether picking the last (the task that gave way) counts like one.
    unfair: bool,
}

impl Point {
    fn cost(&self, choice: usize) -> usize {
        usize::from(choice != 0 && (self.preemptive || (self.unfair && choice + 1 == self.enabled.len())))
    }
}

#[derive(Default)]
struct Shared {
    points: Vec<Point>,
    executions: usize,
    tree_nodes: usize,
    diverged: Option<String>,
    done: bool,
    capped: bool,
}

/// Depth-first enumeration of all schedules with at most `bound` preemptions.
struct BoundedDfs {
    bound: usize,
    /// Bound the number of delays (skipped tasks, at any scheduling point)
    /// instead of the number of preemptions.
    delays: bool,
    /// Choices to repeat; afterwards choice 0.
    prefix: Vec<usize>,
    pos: usize,
    points: Vec<Point>,
    first: bool,
    /// Replay one schedule only.
    once: bool,
    deadline: Instant,
    /// Split the space between parallel explorers by the execution's first
    /// `split` branching points: (index, count).
    shared: Arc<Mutex<Shared>>,
    max_steps: usize,
    /// The last task and how long it has been running without a break.
    run: (usize, usize),
}

/// A task that has run this long gives way like one that yields, so that
/// loops which poll are not taken for livelocks.
const LONG_RUN: usize = 300;

impl BoundedDfs {
    fn next_prefix(&self) -> Option<Vec<usize>> {
        let mut costs = vec![0usize; self.points.len() + 1];
        for (i, p) in self.points.iter().enumerate() {
            costs[i + 1] = costs[i] + if self.delays { p.choice } else { p.cost(p.choice) };
        }
        for i in (0..self.points.len()).rev() {
            let p = &self.points[i];
            // The next choice that is not too expensive.
            for choice in p.choice + 1..p.enabled.len() {
                let cost = costs[i] + if self.delays { choice } else { p.cost(choice) };
                if cost <= self.bound {
                    let mut v: Vec<usize> = self.points[..i].iter().map(|p| p.choice).collect();
                    v.push(choice);
                    return Some(v);
                }
            }
        }
        None
    }
}

impl BoundedDfs {
    fn choose(&mut self, enabled: Vec<usize>, preemptive: bool, unfair: bool) -> Option<usize> {
        let choice = self.prefix.get(self.pos).copied().unwrap_or(0);
        let mut g = self.shared.lock().unwrap_or_else(|e| e.into_inner());
        if choice >= enabled.len() {
            g.diverged = Some(format!("{}: choice {} of {} at point {}", HARNESS, choice, enabled.len(), self.pos));
            return None;
        }
        self.pos += 1;
        if self.pos > self.max_steps {
            g.diverged = Some("livelock".to_string());
            return None;
        }
        let p = Point { enabled, choice, preemptive, unfair };
        self.points.push(p.clone());
        g.points.push(p);
        if self.pos >= self.prefix.len() {
            g.tree_nodes += 1;
        }
        Some(choice)
    }
}

impl Scheduler for BoundedDfs {
    fn new_execution(&mut self) -> Option<Schedule> {
        if !self.first {
            if self.once {
                return None;
            }
            match self.next_prefix() {
                Some(p) => self.prefix = p,
                None => {
                    self.shared.lock().unwrap_or_else(|e| e.into_inner()).done = true;
                    return None;
                }
            }
            if Instant::now() > self.deadline {
                self.shared.lock().unwrap_or_else(|e| e.into_inner()).capped = true;
                return None;
            }
        }
        self.first = false;
        self.pos = 0;
        self.points.clear();
        self.run = (usize::MAX, 0);
        let mut g = self.shared.lock().unwrap_or_else(|e| e.into_inner());
        g.points.clear();
        g.executions += 1;
        Some(Schedule::new(0))
    }

    fn next_task(&mut self, runnable: &[&Task], current: Option<TaskId>, is_yielding: bool) -> Option<TaskId> {
        let mut enabled: Vec<usize> = runnable.iter().map(|t| t.id().into()).collect();
        enabled.sort();
        let (mut preemptive, mut unfair) = (false, false);
        if let Some(c) = current {
            let c: usize = c.into();
            if let Some(i) = enabled.iter().position(|&e| e == c) {
                if is_yielding || (self.run.0 == c && self.run.1 > LONG_RUN) {
                    // The others first, in turn.
                    enabled.rotate_left(i + 1);
                    unfair = true;
                } else {
                    enabled.remove(i);
                    enabled.insert(0, c);
                    preemptive = true;
                }
            }
        }
        let i = self.choose(enabled.clone(), preemptive, unfair)?;
        self.run = (enabled[i], if self.run.0 == enabled[i] { self.run.1 + 1 } else { 0 });
        Some(TaskId::from(enabled[i]))
    }

    /// Whether a timed wait expires now.
    fn next_u64(&mut self) -> u64 {
        self.choose(vec![0, 1], true, false).unwrap_or(0) as u64
    }
}

mod v {
    pub use vsubject::batch_tokenize::tokenize_file;
    pub use vsubject::input::sample::{Sample, Sampler};
    pub use vsubject::processing::Processing;
    pub use vsubject::tokenset::TokenSet;
}

pub struct ListSampler {
    pub samples: Vec<String>,
}

impl<'a> v::Sampler<'a> for ListSampler {
    type Iter = Box<dyn Iterator<Item = v::Sample<'a>> + 'a>;
    fn iter(&'a self) -> Self::Iter {
        Box::new(self.samples.iter().enumerate().map(|(i, s)| {
            // Both kinds of samples.
            if i % 2 == 0 { v::Sample::Ref(s.as_str()) } else { v::Sample::Data(s.clone()) }
        }))
    }
    fn total_size(&'a self) -> u64 {
        1 << 40
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Flat {
    total: u64,
    bytes: u64,
    tokens: Vec<u64>,
    seqs: Vec<u64>,
    pairs: Vec<u64>,
    initial: Option<u64>,
    set: String,
}

fn samples(n: usize) -> Vec<String> {
    // Different lengths, different counts, so that lost, repeated or torn
    // samples can't cancel out.
    ["abab", "b\n\n", "aabbaabbab é", "c", "abcabcabcabcabcabcabc", "xyz ab", "ba", "Q"].iter().cycle().take(n).enumerate()
        .map(|(i, s)| format!("{}{}", s, "z".repeat(i))).collect()
}

fn vset() -> v::TokenSet {
    let mut ts = v::TokenSet::new_bits2(v::Processing::Raw, true);
    for t in ["a", "b", "ab", "abc", "\n\n"] {
        ts.add_token(t.as_bytes());
    }
    ts
}

/// The sequential result, computed sample by sample with fresh statistics and
/// added up here.
fn sequential(list: &[String]) -> Flat {
    use subject::processing::Processing;
    use subject::stats2::TokenStats;
    use subject::tokenizer2::FragmentTokenizer;
    use subject::tokenset::TokenSet;
    let mut ts = TokenSet::new_bits2(Processing::Raw, true);
    for t in ["a", "b", "ab", "abc", "\n\n"] {
        ts.add_token(t.as_bytes());
    }
    let tok = FragmentTokenizer::new(ts.clone());
    let z = TokenStats::new(ts.clone(), Some(77));
    let mut f = Flat { total: 0, bytes: 0, tokens: z.token_counts.clone(), seqs: z.seq_counts.clone(), pairs: z.pair_counts.clone(), initial: Some(77), set: ts.to_json().to_string() };
    for s in list {
        let mut st = TokenStats::new(ts.clone(), Some(77));
        tok.process_slice(s.as_bytes(), &mut st, &mut Vec::new());
        f.total += st.total_tokens;
        f.bytes += st.scanned_bytes;
        for (a, b) in f.tokens.iter_mut().zip(&st.token_counts) { *a += b }
        for (a, b) in f.seqs.iter_mut().zip(&st.seq_counts) { *a += b }
        for (a, b) in f.pairs.iter_mut().zip(&st.pair_counts) { *a += b }
    }
    f
}

struct Outcome {
    executions: usize,
    done: bool,
    capped: bool,
    points: usize,
    tree_nodes: usize,
    violation: Option<(Vec<usize>, String)>,
    harness: Option<String>,
    schedule_lens: (usize, usize),
}

fn run_config(workers: usize, nsamples: usize, bound: usize, delays: bool, prefix: Option<Vec<usize>>, deadline: Instant) -> Outcome {
    let list = samples(nsamples);
    let want = sequential(&list);
    let shared = Arc::new(Mutex::new(Shared::default()));
    let sch = BoundedDfs {
        bound,
        delays,
        prefix: prefix.clone().unwrap_or_default(),
        pos: 0,
        points: vec![],
        first: true,
        once: prefix.is_some(),
        deadline,
        shared: shared.clone(),
        max_steps: 20_000,
        run: (usize::MAX, 0),
    };
    vstd::thread::CPUS.with(|c| c.set(workers));
    let total_points = Arc::new(AtomicUsize::new(0));
    let lens = Arc::new(Mutex::new((usize::MAX, 0usize)));
    let bad: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let ts = Arc::new(vset());
    let sampler = Arc::new(ListSampler { samples: list });
    let (sh2, tp2, lens2, bad2) = (shared.clone(), total_points.clone(), lens.clone(), bad.clone());
    let mut cfg = shuttle::Config::new();
    cfg.stack_size = 1 << 20;
    cfg.failure_persistence = shuttle::FailurePersistence::None;
    cfg.max_steps = shuttle::MaxSteps::FailAfter(20_000);
    cfg.silence_warnings = true;
    let r = guarded(move || {
        let runner = shuttle::Runner::new(sch, cfg);
        runner.run(move || {
            vstd::TIMEOUTS.with(|c| c.set(2));
            let st = v::tokenize_file(&ts, &*sampler, Some(77));
            let got = Flat {
                total: st.total_tokens,
                bytes: st.scanned_bytes,
                tokens: st.token_counts.clone(),
                seqs: st.seq_counts.clone(),
                pairs: st.pair_counts.clone(),
                initial: st.initial_size,
                set: st.token_set.to_json().to_string(),
            };
            let n = sh2.lock().unwrap_or_else(|e| e.into_inner()).points.len();
            tp2.fetch_add(n, Ordering::Relaxed);
            {
                let mut l = lens2.lock().unwrap_or_else(|e| e.into_inner());
                *l = (l.0.min(n), l.1.max(n));
            }
            if got != want {
                let m = format!("statistics differ from the sequential result: {} tokens / {} bytes instead of {} / {}", got.total, got.bytes, want.total, want.bytes);
                *bad2.lock().unwrap_or_else(|e| e.into_inner()) = Some(m.clone());
                panic!("{}", m);
            }
        });
    });
    let g = shared.lock().unwrap_or_else(|e| e.into_inner());
    let mut o = Outcome {
        executions: g.executions,
        done: g.done || prefix.is_some(),
        capped: g.capped,
        points: total_points.load(Ordering::Relaxed),
        tree_nodes: g.tree_nodes,
        violation: None,
        harness: g.diverged.clone().filter(|d| d.contains(HARNESS)),
        schedule_lens: *lens.lock().unwrap_or_else(|e| e.into_inner()),
    };
    if let Err(e) = r {
        let what = bad.lock().unwrap_or_else(|e| e.into_inner()).clone().unwrap_or(e);
        o.violation = Some((g.points.iter().map(|p| p.choice).collect(), what));
    } else if let Some(d) = &g.diverged {
        if !d.contains(HARNESS) {
            o.violation = Some((g.points.iter().map(|p| p.choice).collect(), d.clone()));
        }
    }
    o
}

fn main() {
    engine_main("c06", explore, |_f, case| {
        let w = case["workers"].as_u64().unwrap() as usize;
        let n = case["samples"].as_u64().unwrap() as usize;
        let p: Vec<usize> = case["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let o = run_config(w, n, 99, false, Some(p), Instant::now() + Duration::from_secs(60));
        match o.violation {
            Some((_, m)) => Err(m),
            None => Ok(()),
        }
    });
}

fn explore(args: &Args, rep: &Report) {
    // Configurations: per preemption bound and number of workers, the highest
    // number of samples.
    let grid: &[(usize, [Option<usize>; 4])] = args.pick(
        &[
            (0, [Some(8), Some(8), Some(8), Some(4)]),
            (1, [Some(8), Some(8), Some(4), None]),
            (2, [Some(8), Some(5), None, None]),
            (3, [Some(8), Some(2), None, None]),
        ],
        &[
            (0, [Some(8), Some(8), Some(8), Some(8)]),
            (1, [Some(8), Some(8), Some(8), Some(4)]),
            (2, [Some(8), Some(8), Some(4), None]),
            (3, [Some(8), Some(7), Some(1), None]),
            (4, [Some(8), Some(4), None, None]),
            (5, [Some(8), Some(1), None, None]),
        ],
    );
    // More workers than that, with a bound on delays: (delays, workers, highest
    // number of samples).
    let wide: &[(usize, usize, usize)] = args.pick(
        &[(0, 16, 20), (1, 10, 9), (2, 6, 6)],
        &[(0, 24, 40), (1, 16, 24), (2, 12, 12), (3, 6, 9), (4, 4, 6)],
    );
    let mut configs = vec![];
    for (bound, w, max) in wide {
        for w in 1..=*w {
            for n in 0..=*max {
                configs.push((*bound, w, n, true));
            }
        }
    }
    for (bound, row) in grid {
        for (w, max) in row.iter().enumerate() {
            if let Some(max) = max {
                for n in 0..=*max {
                    configs.push((*bound, w + 1, n, false));
                }
            }
        }
    }
    configs.sort_by_key(|c| (c.0, c.3));
    // Longest first within the pool would be better balanced, but shortest
    // first gives the simplest counterexample.
    let budget = Duration::from_secs(args.pick(150, 1800));
    let deadline = Instant::now() + budget;
    let per_config = Duration::from_secs(args.pick(60, 600));
    let next = AtomicUsize::new(0);
    let table: Mutex<Vec<Value>> = Mutex::new(vec![]);
    let t0 = Instant::now();
    // Configurations that were not finished at a lower bound are not retried.
    let gave_up: Mutex<std::collections::HashSet<(usize, usize, bool)>> = Default::default();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= configs.len() || Instant::now() > deadline || rep.stopped() {
                    break;
                }
                let (bound, w, n, delays) = configs[i];
                if gave_up.lock().unwrap_or_else(|e| e.into_inner()).contains(&(w, n, delays)) {
                    continue;
                }
                let dl = deadline.min(Instant::now() + per_config);
                let o = run_config(w, n, bound, delays, None, dl);
                if let Some(h) = o.harness {
                    eprintln!("{}", h);
                    std::process::exit(3);
                }
                rep.cases.fetch_add(o.executions as u64, Ordering::Relaxed);
                rep.execs.fetch_add(o.executions as u64, Ordering::Relaxed);
                rep.states.fetch_add(o.tree_nodes as u64, Ordering::Relaxed);
                rep.steps.fetch_add(o.points as u64, Ordering::Relaxed);
                if let Some((choices, what)) = o.violation {
                    // The same schedule must fail again.
                    let again = run_config(w, n, 99, false, Some(choices.clone()), Instant::now() + Duration::from_secs(60));
                    if again.violation.is_none() {
                        eprintln!("{} schedule did not fail again", HARNESS);
                        std::process::exit(3);
                    }
                    rep.violation("schedules", json!({"workers": w, "samples": n, "bound": bound, "choices": choices}), &what);
                    break;
                }
                if !o.done {
                    gave_up.lock().unwrap_or_else(|e| e.into_inner()).insert((w, n, delays));
                }
                table.lock().unwrap_or_else(|e| e.into_inner()).push(json!({"workers": w, "samples": n, "bound": bound, "bounded": if delays { "delays" } else { "preemptions" }, "schedules": o.executions, "complete": o.done,
                    "points_min": o.schedule_lens.0, "points_max": o.schedule_lens.1}));
            });
        }
    });
    let mut t = table.into_inner().unwrap();
    t.sort_by_key(|v| (v["bounded"].as_str().map(String::from), v["bound"].as_u64(), v["workers"].as_u64(), v["samples"].as_u64()));
    let complete: Vec<&Value> = t.iter().filter(|v| v["complete"] == true).collect();
    rep.sample(json!({"family": "schedules", "case": complete.first()}));
    rep.sample(json!({"family": "schedules", "case": complete.last()}));
    for (bound, row) in grid {
        let space: usize = row.iter().flatten().map(|m| m + 1).sum();
        let all: Vec<_> = t.iter().filter(|v| v["bounded"] == "preemptions" && v["bound"] == *bound as u64).collect();
        let done = all.iter().filter(|v| v["complete"] == true).count();
        let sch: u64 = all.iter().map(|v| v["schedules"].as_u64().unwrap()).sum();
        let rows: Vec<String> = row.iter().enumerate().filter_map(|(w, m)| m.map(|m| format!("{} workers x 0..{} samples", w + 1, m))).collect();
        rep.push_family_raw(json!({"family": format!("schedules with at most {} preemptions: {}", bound, rows.join(", ")), "space": space, "explored": done, "schedules": sch, "complete": done == space, "wall_s": t0.elapsed().as_secs_f64()}));
    }
    for (bound, w, n) in wide {
        let space = w * (n + 1);
        let all: Vec<_> = t.iter().filter(|v| v["bounded"] == "delays" && v["bound"] == *bound as u64).collect();
        let done = all.iter().filter(|v| v["complete"] == true).count();
        let sch: u64 = all.iter().map(|v| v["schedules"].as_u64().unwrap()).sum();
        rep.push_family_raw(json!({"family": format!("schedules with at most {} delays: 1..{} workers x 0..{} samples", bound, w, n), "space": space, "explored": done, "schedules": sch, "complete": done == space, "wall_s": t0.elapsed().as_secs_f64()}));
    }
    rep.note("configurations", Value::Array(t));
    rep.note("memory model", "sequentially consistent interleavings of mutex and channel operations (shuttle)");
}
