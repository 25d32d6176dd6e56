//! Runner shared by every check: seeded proptest generation on several threads, classification,
//! shrinking, replay files, known findings, evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// What one execution of a check reports about its case.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// known findings met in this case: (signature, message)
    pub findings: Vec<(String, String)>,
    pub evals: u64,
}
impl Obs {
    /// A label made up of a few parts.
    pub fn tag(&mut self, l: String) {
        use std::collections::BTreeSet;
        static ALL: std::sync::Mutex<BTreeSet<&'static str>> = std::sync::Mutex::new(BTreeSet::new());
        let mut all = ALL.lock().unwrap();
        let s = match all.get(l.as_str()) {
            Some(s) => *s,
            None => {
                let s: &'static str = Box::leak(l.into_boxed_str());
                all.insert(s);
                s
            }
        };
        drop(all);
        self.label(s);
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    pub fn nt(&mut self) {
        self.nontrivial = true
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// A deviation that may be listed in known_findings.json under `sig`. It counts as a violation
    /// unless it is listed there.
    pub fn finding(&mut self, sig: &str, msg: String) {
        self.findings.push((sig.to_string(), msg))
    }
}

pub type R = Result<(), String>;

/// A case that runs this long will not end: every case takes milliseconds, the slowest a few seconds.
fn hang_limit() -> u64 {
    std::env::var("FRAME_HANG_S").ok().and_then(|v| v.parse().ok()).unwrap_or(150)
}
struct Done<'a>(&'a AtomicU64);
impl Drop for Done<'_> {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::Relaxed);
    }
}
/// For developing: a share of the cases.
fn scale() -> f64 {
    std::env::var("FRAME_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0)
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)*) => { if !($c) { return Err(format!($($fmt)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($fmt:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: {:?} != {:?}", format!($($fmt)*), a, b)); }
    }};
}

pub struct Tier {
    pub thorough: bool,
    pub seed: u64,
    pub replay: Option<(String, Value)>,
    pub only: Option<String>,
}

struct SubReport {
    name: String,
    rule: String,
    evaluations: u64,
    nontrivial: u64,
    distinct: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    wall_s: f64,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub tier: Tier,
    subs: Vec<SubReport>,
    violations: Vec<(String, String)>,
    known: BTreeMap<String, String>,
    known_hit: BTreeMap<String, u64>,
    start: Instant,
    assumptions: Vec<String>,
    replayed: bool,
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn clip(v: Value) -> Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v
    } else {
        Value::String(s.chars().take(1500).collect::<String>() + "…")
    }
}

fn hash64(b: &[u8]) -> u64 {
    let h = blake3::hash(b);
    u64::from_le_bytes(h.as_bytes()[..8].try_into().unwrap())
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn guarded<C>(f: &dyn Fn(&C, &mut Obs) -> R, c: &C) -> (R, Obs) {
    let mut obs = Obs::default();
    rocksdb::shim::set_clock(0);
    let r = match catch_unwind(AssertUnwindSafe(|| f(c, &mut obs))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    };
    (r, obs)
}

impl Prop {
    pub fn new(id: &'static str, level: &'static str, tier: Tier) -> Prop {
        let mut known = BTreeMap::new();
        if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.json", verif_dir())) {
            let v: Value = serde_json::from_str(&t).expect("known_findings.json");
            for f in v["findings"].as_array().unwrap_or(&vec![]) {
                if f["property"] == id {
                    known.insert(
                        f["signature"].as_str().unwrap().to_string(),
                        f["what"].as_str().unwrap_or("").to_string(),
                    );
                }
            }
        }
        Prop {
            id,
            level,
            tier,
            subs: vec![],
            violations: vec![],
            known,
            known_hit: BTreeMap::new(),
            start: Instant::now(),
            assumptions: vec![],
            replayed: false,
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string())
    }

    /// Run one generated-input check: `quick`/`thorough` cases, `threads` workers.
    pub fn sub<C, G, F>(&mut self, name: &str, rule: &str, quick: u32, thorough: u32, gen: G, f: F)
    where
        C: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
        G: Fn() -> BoxedStrategy<C> + Sync,
        F: Fn(&C, &mut Obs) -> R + Sync,
    {
        if let Some((sub, case)) = &self.tier.replay {
            if sub == name {
                let c: C = serde_json::from_value(case.clone()).expect("replay case");
                self.replayed = true;
                let id = self.id;
                let n = name.to_string();
                std::thread::spawn(move || {
                    std::thread::sleep(std::time::Duration::from_secs(hang_limit()));
                    println!("replay {id} {n}: no end after {} s", hang_limit());
                    std::process::exit(1);
                });
                let (r, obs) = guarded(&f, &c);
                for (s, m) in &obs.findings {
                    println!("finding {s}: {m}");
                }
                match self.judge(r, &obs) {
                    Ok(()) => println!("replay {} {}: held", self.id, name),
                    Err(e) => {
                        println!("replay {} {}: {}", self.id, name, e);
                        self.violations.push((name.into(), e));
                    }
                }
            }
            return;
        }
        if let Some(o) = &self.tier.only {
            if o != name {
                return;
            }
        }
        let cases = if self.tier.thorough { thorough } else { quick };
        let cases = ((cases as f64 * scale()) as u32).max(cases.min(8));
        let t0 = Instant::now();
        let workers = 8u32.min(cases.max(1));
        let stop = AtomicBool::new(false);
        struct W {
            evals: u64,
            nontrivial: u64,
            distinct: BTreeSet<u64>,
            labels: BTreeMap<String, u64>,
            samples: Vec<Value>,
            fail: Option<(Value, String, u64)>,
            known: BTreeMap<String, u64>,
        }
        let results: Mutex<Vec<(u32, W)>> = Mutex::new(vec![]);
        let this: &Prop = self;
        let running: Vec<Mutex<Option<(Instant, C)>>> = (0..workers).map(|_| Mutex::new(None)).collect();
        let left = AtomicU64::new(workers as u64);
        std::thread::scope(|s| {
            // a case that does not end is a violation too: its thread cannot be stopped, the process can
            s.spawn(|| {
                while left.load(Ordering::Relaxed) > 0 {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    for r in &running {
                        let r = r.lock().unwrap();
                        let Some((since, case)) = &*r else { continue };
                        if since.elapsed().as_secs() >= hang_limit() {
                            let msg = format!("no end after {} s", hang_limit());
                            let case = serde_json::to_value(case).unwrap();
                            this.report(name, &msg, 0, case);
                            std::process::exit(1);
                        }
                    }
                }
            });
            for w in 0..workers {
                let (gen, f, stop, results, running, left) = (&gen, &f, &stop, &results, &running, &left);
                let watched = move |c: &C| {
                    *running[w as usize].lock().unwrap() = Some((Instant::now(), c.clone()));
                    let r = guarded(f, c);
                    *running[w as usize].lock().unwrap() = None;
                    r
                };
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let _done = Done(left);
                        let mut seed = [0u8; 32];
                        let h = blake3::hash(
                            format!("{}/{}/{}/{}", this.tier.seed, this.id, name, w).as_bytes(),
                        );
                        seed.copy_from_slice(h.as_bytes());
                        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
                        let config = Config {
                            cases: 1,
                            failure_persistence: None,
                            max_local_rejects: 1_000_000,
                            max_global_rejects: 1_000_000,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(config, rng);
                        let strat = gen();
                        let n = cases / workers + u32::from(w < cases % workers);
                        let mut out = W {
                            evals: 0,
                            nontrivial: 0,
                            distinct: BTreeSet::new(),
                            labels: BTreeMap::new(),
                            samples: vec![],
                            fail: None,
                            known: BTreeMap::new(),
                        };
                        for i in 0..n {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let mut tree = match strat.new_tree(&mut runner) {
                                Ok(t) => t,
                                Err(e) => panic!("generator of {name}: {e}"),
                            };
                            let case = tree.current();
                            let (r, obs) = watched(&case);
                            let r = this.judge(r, &obs);
                            out.evals += obs.evals.max(1);
                            for l in &obs.labels {
                                *out.labels.entry(l.to_string()).or_default() += 1;
                            }
                            for (sig, _) in &obs.findings {
                                if this.known.contains_key(sig) {
                                    *out.known.entry(sig.clone()).or_default() += 1;
                                }
                            }
                            if obs.nontrivial {
                                out.nontrivial += 1;
                                let v = serde_json::to_vec(&case).unwrap();
                                out.distinct.insert(hash64(&v));
                                if out.samples.len() < 2 && (i % 7 == 3 || i + 8 > n) {
                                    out.samples.push(clip(serde_json::to_value(&case).unwrap()));
                                }
                            }
                            if let Err(e) = r {
                                stop.store(true, Ordering::Relaxed);
                                // shrink
                                let mut best = (case, e);
                                let mut steps = 0u32;
                                let t = Instant::now();
                                if std::env::var_os("FRAME_NOSHRINK").is_none() && tree.simplify() {
                                    loop {
                                        if steps > 20_000 || t.elapsed().as_secs() > 60 {
                                            break;
                                        }
                                        steps += 1;
                                        let c = tree.current();
                                        let (r, obs) = watched(&c);
                                        match this.judge(r, &obs) {
                                            Err(e) => {
                                                best = (c, e);
                                                if !tree.simplify() {
                                                    break;
                                                }
                                            }
                                            Ok(()) => {
                                                if !tree.complicate() {
                                                    break;
                                                }
                                            }
                                        }
                                    }
                                }
                                out.fail = Some((
                                    serde_json::to_value(&best.0).unwrap(),
                                    best.1,
                                    steps as u64,
                                ));
                                break;
                            }
                        }
                        results.lock().unwrap().push((w, out));
                    })
                    .unwrap();
            }
        });
        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|r| r.0);
        let mut rep = SubReport {
            name: name.into(),
            rule: rule.into(),
            evaluations: 0,
            nontrivial: 0,
            distinct: 0,
            labels: BTreeMap::new(),
            samples: vec![],
            wall_s: 0.0,
        };
        let mut distinct = BTreeSet::new();
        let mut fail = None;
        for (_, w) in results {
            rep.evaluations += w.evals;
            rep.nontrivial += w.nontrivial;
            distinct.extend(w.distinct);
            for (k, v) in w.labels {
                *rep.labels.entry(k).or_default() += v;
            }
            for s in w.samples {
                if rep.samples.len() < 3 {
                    rep.samples.push(s)
                }
            }
            for (k, v) in w.known {
                *self.known_hit.entry(k).or_default() += v;
            }
            if fail.is_none() {
                fail = w.fail;
            }
        }
        rep.distinct = distinct.len() as u64;
        rep.wall_s = t0.elapsed().as_secs_f64();
        eprintln!(
            "[{} {}] {} cases, {} nontrivial, {} distinct, {:.1}s {:?}",
            self.id, name, rep.evaluations, rep.nontrivial, rep.distinct, rep.wall_s, rep.labels
        );
        self.subs.push(rep);
        if let Some((case, msg, steps)) = fail {
            self.report(name, &msg, steps, case);
            self.violations.push((name.into(), msg));
        }
    }

    fn report(&self, name: &str, msg: &str, steps: u64, case: Value) {
        let dir = format!("{}/build/replays", verif_dir());
        std::fs::create_dir_all(&dir).unwrap();
        let path = format!("{}/{}-{}.json", dir, self.id, name);
        let doc = json!({"property": self.id, "sub": name, "seed": self.tier.seed,
            "message": msg, "shrink_steps": steps, "case": case});
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        eprintln!("[{} {}] {}", self.id, name, msg);
        println!("VIOLATION property={} replay={}", self.id, path);
    }

    fn judge(&self, r: R, obs: &Obs) -> R {
        r?;
        for (sig, msg) in &obs.findings {
            if !self.known.contains_key(sig) {
                return Err(format!("[{sig}] {msg}"));
            }
        }
        Ok(())
    }

    pub fn finish(self) -> i32 {
        if self.tier.replay.is_some() {
            if !self.replayed {
                eprintln!("no sub-check matched the replay file");
                return 2;
            }
            return i32::from(!self.violations.is_empty());
        }
        for (sig, what) in &self.known {
            if self.known_hit.contains_key(sig) {
                println!("KNOWN-FINDING: property={} {} [{}]", self.id, what, sig);
            }
        }
        let ev: u64 = self.subs.iter().map(|s| s.evaluations).sum();
        let di: u64 = self.subs.iter().map(|s| s.distinct).sum();
        let rule = self
            .subs
            .iter()
            .map(|s| format!("[{}] {}", s.name, s.rule))
            .collect::<Vec<_>>()
            .join("; ");
        let samples: Vec<Value> = self
            .subs
            .iter()
            .flat_map(|s| s.samples.iter().map(|v| json!({"sub": s.name, "case": v})))
            .collect();
        let parts: Vec<Value> = self
            .subs
            .iter()
            .map(|s| {
                json!({"sub": s.name, "evaluations": s.evaluations, "nontrivial": s.nontrivial,
                "distinct_nontrivial": s.distinct, "classes": s.labels, "wall_s": s.wall_s})
            })
            .collect();
        let doc = json!({
            "property": self.id,
            "tier": if self.tier.thorough { "thorough" } else { "quick" },
            "seed": self.tier.seed,
            "level": self.level,
            "coverage": {
                "evaluations": ev,
                "distinct_nontrivial": di,
                "rule": rule,
                "samples": samples,
                "parts": parts,
                "known_findings_met": self.known_hit,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.len(),
        });
        let dir = format!("{}/evidence", verif_dir());
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(
            format!("{}/{}.json", dir, self.id),
            serde_json::to_string_pretty(&doc).unwrap(),
        )
        .unwrap();
        i32::from(!self.violations.is_empty())
    }
}

pub type Entry = (&'static str, &'static str, fn(&mut Prop));

/// `bin check ID quick|thorough`, `bin replay FILE`, `bin list`
pub fn main(entries: &[Entry]) {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        if std::env::var("VP_PANIC").is_ok() {
            eprintln!("{s}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let a: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let e = entries.iter().find(|e| e.0 == a[2]).expect("unknown property");
            let thorough = match a.get(3) {
                Some(t) => t == "thorough",
                None => std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
            };
            let mut p = Prop::new(
                e.0,
                e.1,
                Tier { thorough, seed, replay: None, only: a.get(4).cloned() },
            );
            (e.2)(&mut p);
            p.finish()
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap().to_string();
            let e = entries.iter().find(|e| e.0 == id).expect("unknown property");
            let mut p = Prop::new(
                e.0,
                e.1,
                Tier {
                    thorough: false,
                    seed,
                    replay: Some((v["sub"].as_str().unwrap().into(), v["case"].clone())),
                    only: None,
                },
            );
            (e.2)(&mut p);
            p.finish()
        }
        _ => {
            for e in entries {
                println!("{}", e.0);
            }
            0
        }
    };
    std::process::exit(code);
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

pub type Shared<T> = Arc<Mutex<T>>;
