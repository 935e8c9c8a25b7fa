//! Running cases in parallel, collecting what the monitors observed, verdicts and evidence.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use crate::rng::{fnv, mix, Rng};

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = payload(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

/// A panic observed while library code was running.
#[derive(Clone, Debug)]
pub struct Panicked {
    pub msg: String,
    pub loc: String,
}

impl Panicked {
    /// Did the harness itself panic (as opposed to the library or a crate it uses)?
    pub fn in_harness(&self) -> bool {
        let l = &self.loc;
        (l.starts_with("src/") || l.contains("/verif/harness/"))
            && !self.msg.contains("MLXMON-BUDGET")
    }
}

/// Run library code, turning a panic into a value.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            let (msg, loc) = LAST_PANIC
                .with(|l| l.borrow_mut().take())
                .unwrap_or_else(|| (payload(&*p), String::new()));
            Err(Panicked { msg, loc })
        }
    }
}

#[derive(Default)]
pub struct Acc {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, u64, String)>,
    pub harness_errors: Vec<String>,
}

impl Acc {
    fn merge(&mut self, o: Acc) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
        self.violations.extend(o.violations);
        self.harness_errors.extend(o.harness_errors);
    }
}

/// One case: its random source and its observations.
pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    phase: &'a str,
    acc: &'a mut Acc,
    fails: u32,
    stop: &'a AtomicBool,
    sampled: bool,
}

impl<'a> Case<'a> {
    /// An observed contradiction of the property.
    pub fn fail(&mut self, msg: impl Into<String>) {
        self.fails += 1;
        if self.fails <= 3 && self.acc.violations.len() < 20 {
            self.acc
                .violations
                .push((self.phase.to_string(), self.idx, msg.into()));
        }
        self.stop.store(true, Ordering::Relaxed);
    }
    pub fn failed(&self) -> bool {
        self.fails > 0
    }
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) -> bool {
        self.acc.evals += 1;
        if !ok {
            self.fail(msg());
        }
        ok
    }
    pub fn eval(&mut self) {
        self.acc.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.acc.evals += n;
    }
    /// Count a distinct non-trivial observation.
    pub fn seen(&mut self, h: u64) {
        if self.acc.distinct.len() < 2_000_000 {
            self.acc.distinct.insert(mix(h ^ fnv(self.phase.as_bytes())));
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(v) = self.acc.counters.get_mut(name) {
            *v += n;
        } else {
            self.acc.counters.insert(name.to_string(), n);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if !self.sampled && self.acc.samples.len() < 3 {
            self.sampled = true;
            let s = format!("{}#{}: {}", self.phase, self.idx, f());
            self.acc.samples.push(s);
        }
    }
    /// Run library code; a panic is reported as a violation and `None` returned.
    pub fn lib<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Option<R> {
        match guard(f) {
            Ok(r) => Some(r),
            Err(p) => {
                if p.in_harness() {
                    self.acc
                        .harness_errors
                        .push(format!("{what}: {} at {}", p.msg, p.loc));
                    self.stop.store(true, Ordering::Relaxed);
                } else {
                    self.fail(format!("{what} panicked: {} at {}", p.msg, p.loc));
                }
                None
            }
        }
    }
}

/// A case takes milliseconds; one that takes this long hangs.
const HANG_S: u64 = 120;

fn out_dir() -> String {
    std::env::var("MLXMON_OUT").unwrap_or_else(|_| "/verif/evidence".into())
}

fn replay_path(prop: &str, seed: u64) -> String {
    let dir = out_dir();
    let _ = std::fs::create_dir_all(format!("{dir}/replay"));
    format!("{dir}/replay/{prop}-{seed}.txt")
}

pub struct Ctx {
    pub prop: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub replay: Option<(String, u64)>,
    pub acc: Acc,
    pub exhaustive: bool,
    pub assumptions: Vec<&'static str>,
    /// Counters that have to be non-zero for the run to count as having observed something.
    pub required: Vec<(&'static str, u64)>,
    pub start: Instant,
}

impl Ctx {
    pub fn new(prop: &'static str) -> Self {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough") == Ok(true);
        Ctx {
            prop,
            level: "exploration",
            rule: "",
            thorough,
            seed,
            replay: None,
            acc: Acc::default(),
            exhaustive: false,
            assumptions: Vec::new(),
            required: Vec::new(),
            start: Instant::now(),
        }
    }
    /// Case count by tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            8 * thorough.max(3 * quick)
        } else {
            24 * quick
        }
    }
    /// Cases per phase when another instrument (an interpreter, a sanitizer) is what decides.
    fn limit() -> Option<u64> {
        std::env::var("MLXMON_CASES").ok().and_then(|s| s.parse().ok())
    }
    /// Run `n` cases of a phase over all cores. Stops early after a violation.
    pub fn phase(&mut self, name: &str, n: u64, f: impl Fn(&mut Case) + Sync) {
        if !self.acc.violations.is_empty() || !self.acc.harness_errors.is_empty() {
            return;
        }
        let only = match &self.replay {
            Some((p, i)) if p == name => Some(*i),
            Some(_) => return,
            None => None,
        };
        let base = mix(self.seed ^ mix(fnv(self.prop.as_bytes()))) ^ fnv(name.as_bytes());
        let (n, threads) = match Self::limit() {
            Some(l) => (n.min(l), if cfg!(miri) { 1 } else { 8 }),
            None => (n, if only.is_some() { 1 } else { 8 }),
        };
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let total = Mutex::new(Acc::default());
        let run = |acc: &mut Acc, i: u64| {
            let mut case = Case {
                rng: Rng::new(mix(base.wrapping_add(mix(i)))),
                idx: i,
                phase: name,
                acc,
                fails: 0,
                stop: &stop,
                sampled: false,
            };
            let r = guard(|| f(&mut case));
            if let Err(p) = r {
                if p.in_harness() {
                    case.acc
                        .harness_errors
                        .push(format!("{name}#{i}: {} at {}", p.msg, p.loc));
                    stop.store(true, Ordering::Relaxed);
                } else {
                    case.fail(format!("panicked: {} at {}", p.msg, p.loc));
                }
            }
        };
        // One slot per worker: (case + 1, when it started); a watchdog looks at them.
        let slots: Vec<(AtomicU64, AtomicU64)> =
            (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
        let running = AtomicU64::new(threads as u64);
        let since = self.start;
        let (prop, seed, replaying) = (self.prop, self.seed, self.replay.is_some());
        let stuck = |i: u64| {
            let msg = format!("case {i} did not come to an end within {HANG_S} s: a library call does not return");
            let path = replay_path(prop, seed);
            if !replaying {
                let _ = std::fs::write(
                    &path,
                    format!("property={prop}\nseed={seed}\nphase={name}\ncase={i}\n# {msg}\n"),
                );
            }
            println!("{prop}: {name}#{i}: {msg}");
            println!("VIOLATION property={prop} replay={path}");
            std::process::exit(1);
        };
        std::thread::scope(|s| {
            for slot in &slots {
                let (run, next, stop, total, running) = (&run, &next, &stop, &total, &running);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut acc = Acc::default();
                        while !stop.load(Ordering::Relaxed) {
                            let i = match only {
                                Some(i) => {
                                    stop.store(true, Ordering::Relaxed);
                                    i
                                }
                                None => next.fetch_add(1, Ordering::Relaxed),
                            };
                            if i >= n && only.is_none() {
                                break;
                            }
                            if !cfg!(miri) {
                                slot.1.store(since.elapsed().as_secs(), Ordering::Relaxed);
                                slot.0.store(i + 1, Ordering::Release);
                            }
                            run(&mut acc, i);
                            slot.0.store(0, Ordering::Release);
                        }
                        total.lock().unwrap().merge(acc);
                        running.fetch_sub(1, Ordering::Release);
                    })
                    .expect("thread");
            }
            if !cfg!(miri) {
                let mut naps = 0u64;
                while running.load(Ordering::Acquire) > 0 {
                    std::thread::sleep(std::time::Duration::from_millis(if naps < 100 { 2 } else { 50 }));
                    naps += 1;
                    for slot in &slots {
                        let i = slot.0.load(Ordering::Acquire);
                        let t = slot.1.load(Ordering::Relaxed);
                        if i > 0 && since.elapsed().as_secs() > t + HANG_S {
                            stuck(i - 1);
                        }
                    }
                }
            }
        });
        let done = next.load(Ordering::Relaxed).min(n);
        let acc = total.into_inner().unwrap();
        *self.acc.counters.entry(format!("cases:{name}")).or_default() += done;
        self.acc.merge(acc);
    }

    /// Record a violation outside a phase.
    pub fn violation(&mut self, phase: &str, case: u64, msg: String) {
        self.acc.violations.push((phase.into(), case, msg));
    }

    /// Write the evidence file and print the verdict; returns the exit code.
    pub fn finish(mut self) -> i32 {
        let dir = out_dir();
        let _ = std::fs::create_dir_all(format!("{dir}/replay"));
        self.acc.violations.sort();
        // What ran before the judge is part of the run.
        let before = std::env::var("MLXMON_SINCE").ok().and_then(|s| s.parse::<f64>().ok());
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH);
        let wall = match (before, now) {
            (Some(t), Ok(n)) => n.as_secs_f64() - t,
            _ => self.start.elapsed().as_secs_f64(),
        };
        let mut cov = String::new();
        cov.push_str(&format!("\"evaluations\": {}", self.acc.evals));
        cov.push_str(&format!(
            ", \"distinct_nontrivial\": {}",
            self.acc.distinct.len()
        ));
        cov.push_str(&format!(", \"rule\": {}", js(self.rule)));
        let samples: Vec<String> = self.acc.samples.iter().map(|s| js(s)).collect();
        cov.push_str(&format!(", \"samples\": [{}]", samples.join(", ")));
        if self.exhaustive {
            cov.push_str(", \"exhaustive\": true");
        }
        let counters: Vec<String> = self
            .acc
            .counters
            .iter()
            .map(|(k, v)| format!("{}: {}", js(k), v))
            .collect();
        cov.push_str(&format!(", \"observed\": {{{}}}", counters.join(", ")));
        let assumptions: Vec<String> = self.assumptions.iter().map(|s| js(s)).collect();
        let ev = format!(
            "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
            js(self.prop),
            js(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            js(self.level),
            cov,
            assumptions.join(", "),
            wall,
            self.acc.violations.len()
        );
        if self.replay.is_none() {
            let path = format!("{dir}/{}.json", self.prop);
            if let Err(e) = std::fs::write(&path, ev) {
                eprintln!("cannot write {path}: {e}");
                return 2;
            }
        }
        if let Some((phase, idx, msg)) = self.acc.violations.first() {
            let path = replay_path(self.prop, self.seed);
            let mut text = format!(
                "property={}\nseed={}\nphase={}\ncase={}\n# run: VERIF_SEED={} ./check.sh {} --replay {}\n",
                self.prop, self.seed, phase, idx, self.seed, self.prop, path
            );
            for (p, i, m) in &self.acc.violations {
                text.push_str(&format!("# {p}#{i}: {m}\n"));
            }
            if self.replay.is_none() {
                let _ = std::fs::write(&path, text);
            }
            println!("{}: {phase}#{idx}: {msg}", self.prop);
            println!("VIOLATION property={} replay={}", self.prop, path);
            return 1;
        }
        if !self.acc.harness_errors.is_empty() {
            for e in &self.acc.harness_errors {
                println!("INCONCLUSIVE harness error: {e}");
            }
            return 2;
        }
        if self.replay.is_none() && Self::limit().is_none() {
            for (name, min) in &self.required {
                let v = self.acc.counters.get(*name).copied().unwrap_or(0);
                if v < *min {
                    println!("INCONCLUSIVE {}: observed only {v} of {name} (need {min})", self.prop);
                    return 2;
                }
            }
        }
        println!(
            "OK property={} evaluations={} distinct={} wall={:.1}s",
            self.prop,
            self.acc.evals,
            self.acc.distinct.len(),
            wall
        );
        0
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
