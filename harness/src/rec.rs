//! Recording of what the monitors observed, and the parallel case runner.
use crate::rng::{hash_str, mix, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Violation {
    pub case: usize,
    pub msg: String,
    /// stable identification of the failing input/call site, compared with the known findings
    pub key: String,
}

/// Collects what one case observed.
pub struct Rec {
    pub case: usize,
    pub evals: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub keys: HashSet<u64>,
    pub violations: Vec<Violation>,
    pub samples: Vec<Value>,
    pub verbose: bool,
}
impl Rec {
    fn new(case: usize, verbose: bool) -> Self {
        Rec {
            case,
            evals: 0,
            counters: BTreeMap::new(),
            keys: HashSet::new(),
            violations: vec![],
            samples: vec![],
            verbose,
        }
    }
    /// One oracle evaluation.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }
    /// Register a non-trivial observation, identified by a hash of its content.
    pub fn nontrivial(&mut self, key: u64) {
        self.keys.insert(mix(key ^ mix(self.case as u64)));
    }
    pub fn violation(&mut self, key: &str, msg: String) {
        if self.verbose {
            eprintln!("case {}: [{}] {}", self.case, key, msg);
        }
        if self.violations.len() < 20 {
            self.violations.push(Violation {
                case: self.case,
                msg,
                key: key.to_string(),
            });
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, msg: impl FnOnce() -> String) -> bool {
        self.evals += 1;
        if !ok {
            let m = msg();
            self.violation(key, m);
        }
        ok
    }
    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.samples.is_empty() && (self.case < 4 || self.verbose) {
            let v = v();
            self.samples.push(v);
        }
    }
}

thread_local! {
    static PANIC_INFO: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// fallback for panics that started in a worker thread of the code under test
static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        if std::env::var_os("MONITOR_BACKTRACE").is_some() {
            eprintln!("{loc} {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        *LAST_PANIC.lock().unwrap() = Some((loc.clone(), msg.clone()));
        PANIC_INFO.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub fn take_panic() -> (String, String) {
    PANIC_INFO
        .with(|p| p.borrow_mut().take())
        .or_else(|| LAST_PANIC.lock().unwrap().clone())
        .unwrap_or_default()
}

/// Runs `f`, turning a panic in the code under test into Err((location, message)).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| take_panic())
}

pub struct Outcome {
    pub evals: u64,
    pub cases: usize,
    pub counters: BTreeMap<&'static str, u64>,
    pub keys: HashSet<u64>,
    pub violations: Vec<Violation>,
    pub samples: Vec<Value>,
    pub harness_errors: Vec<String>,
}

fn file_key(loc: &str) -> String {
    // file without the line number: stable under refactorings
    loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc).to_string()
}

/// Runs the cases on all cores. Deterministic: every case has its own generator.
pub fn run_cases(
    prop: &str,
    variant: &str,
    seed: u64,
    cases: std::ops::Range<usize>,
    threads: usize,
    hang_s: u64,
    verbose: bool,
    f: &(dyn Fn(usize, &mut Rng, &mut Rec) + Sync),
) -> Outcome {
    let next = AtomicUsize::new(cases.start);
    let total = Mutex::new(Outcome {
        evals: 0,
        cases: 0,
        counters: BTreeMap::new(),
        keys: HashSet::new(),
        violations: vec![],
        samples: vec![],
        harness_errors: vec![],
    });
    let base = mix(seed) ^ hash_str(prop) ^ hash_str(variant).rotate_left(17);
    let t0 = Instant::now();
    let started: Vec<(AtomicU64, AtomicUsize)> = (0..threads)
        .map(|_| (AtomicU64::new(u64::MAX), AtomicUsize::new(0)))
        .collect();
    let done = AtomicBool::new(false);
    let n_viol = AtomicUsize::new(0);
    std::thread::scope(|s| {
        let mut hs = vec![];
        for t in 0..threads {
            let (next, total, started, n_viol) = (&next, &total, &started, &n_viol);
            let cases = cases.clone();
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= cases.end || n_viol.load(Ordering::SeqCst) >= 25 {
                            break;
                        }
                        started[t].1.store(i, Ordering::SeqCst);
                        started[t]
                            .0
                            .store(t0.elapsed().as_secs(), Ordering::SeqCst);
                        let mut rec = Rec::new(i, verbose);
                        let mut rng = Rng::new(base ^ mix(i as u64 + 1));
                        let r = catch_unwind(AssertUnwindSafe(|| f(i, &mut rng, &mut rec)));
                        started[t].0.store(u64::MAX, Ordering::SeqCst);
                        let mut tot = total.lock().unwrap();
                        if r.is_err() {
                            let (loc, msg) = take_panic();
                            if loc.starts_with("src/") || loc.contains("/verif/harness/") {
                                tot.harness_errors
                                    .push(format!("case {i}: harness panic at {loc}: {msg}"));
                            } else {
                                rec.violation(
                                    &format!("panic@{}", file_key(&loc)),
                                    format!("panic in the code under test at {loc}: {msg}"),
                                );
                            }
                        }
                        tot.cases += 1;
                        tot.evals += rec.evals;
                        for (k, v) in rec.counters {
                            *tot.counters.entry(k).or_insert(0) += v;
                        }
                        if tot.keys.len() < 5_000_000 {
                            tot.keys.extend(rec.keys);
                        }
                        n_viol.fetch_add(rec.violations.len().min(3), Ordering::SeqCst);
                        tot.violations.extend(rec.violations);
                        if tot.samples.len() < 5 {
                            tot.samples.extend(rec.samples);
                        }
                    })
                    .unwrap(),
            );
        }
        // watchdog: a case that never returns is reported and the process ends
        let (started, done, total) = (&started, &done, &total);
        let prop = prop.to_string();
        let variant = variant.to_string();
        s.spawn(move || {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                let now = t0.elapsed().as_secs();
                for st in started.iter() {
                    let b = st.0.load(Ordering::SeqCst);
                    if b != u64::MAX && now.saturating_sub(b) > hang_s {
                        let case = st.1.load(Ordering::SeqCst);
                        let tot = total.lock().unwrap();
                        crate::write_result(
                            &tot,
                            Some(Violation {
                                case,
                                key: "hang".into(),
                                msg: format!(
                                    "{prop}/{variant}: a call into the code under test did not return within {hang_s} s"
                                ),
                            }),
                        );
                        std::process::exit(0);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::SeqCst);
    });
    let mut o = total.into_inner().unwrap();
    o.violations.sort_by_key(|v| v.case);
    o.harness_errors.sort();
    o
}

pub fn outcome_json(o: &Outcome, extra: Option<&Violation>) -> Value {
    let mut v: Vec<Value> = o
        .violations
        .iter()
        .map(|v| json!({"case": v.case, "key": v.key, "msg": v.msg}))
        .collect();
    if let Some(x) = extra {
        v.push(json!({"case": x.case, "key": x.key, "msg": x.msg}));
    }
    json!({
        "cases": o.cases,
        "evaluations": o.evals,
        "distinct_nontrivial": o.keys.len(),
        "counters": o.counters,
        "violations": v,
        "samples": o.samples,
        "harness_errors": o.harness_errors,
    })
}
