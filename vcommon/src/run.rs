//! Drives a property's parts: random generation with shrinking (proptest), and
//! exhaustive sweeps; counts what was covered; reports violations with a
//! replayable case.
//!
//! The exit status says only whether the driver worked: violations are in the
//! report, and `check.py` turns them into the verdict.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Check = Result<(), String>;

/// What one case was about.
#[derive(Default)]
pub struct Obs {
    classes: Vec<String>,
    nontrivial: bool,
    key: Option<u64>,
    note: Option<String>,
}
impl Obs {
    pub fn class(&mut self, c: impl Into<String>) {
        self.classes.push(c.into());
    }
    /// This case meets the part's stated rule for being non-trivial.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Decide afresh whether this case is non-trivial.
    pub fn judge(&mut self, nontrivial: bool) {
        self.nontrivial = nontrivial;
    }
    /// Cases with the same key count once (default: the case itself).
    pub fn key(&mut self, k: u64) {
        self.key = Some(k);
    }
    /// What a sample should say about what happened.
    pub fn note(&mut self, s: impl Into<String>) {
        if self.note.is_none() {
            self.note = Some(s.into());
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone)]
pub struct RunCfg {
    pub seed: u64,
    pub tier: Tier,
    pub journal: Option<std::path::PathBuf>,
    pub hang_s: u64,
    /// no further cases from here on
    pub until: Option<std::time::SystemTime>,
}
impl RunCfg {
    fn over(&self) -> bool {
        self.until.map_or(false, |u| std::time::SystemTime::now() > u)
    }
}

/// How a part is run when another property borrows it.
#[derive(Clone)]
struct As {
    prefix: String,
    /// one case in this many
    thin: usize,
}

#[derive(Default)]
struct Cov {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    /// cases there was no time for
    left_out: u64,
}
impl Cov {
    fn merge(&mut self, o: Cov) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.left_out += o.left_out;
        self.distinct.extend(o.distinct);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        if self.samples.len() < 3 {
            self.samples.extend(o.samples.into_iter().take(1));
        }
    }
    fn add(&mut self, obs: Obs, case: impl Fn() -> Value) {
        self.evaluations += 1;
        for c in obs.classes {
            *self.classes.entry(c).or_default() += 1;
        }
        if obs.nontrivial {
            self.nontrivial += 1;
            let mut js = None;
            let k = obs.key.unwrap_or_else(|| {
                let j = case();
                let k = crate::hash::fnv(j.to_string().as_bytes());
                js = Some(j);
                k
            });
            if self.distinct.len() < 3_000_000 {
                self.distinct.insert(k);
            }
            if self.samples.len() < 2 && (self.nontrivial == 1 || self.nontrivial % 97 == 0) {
                let mut s = js.unwrap_or_else(case);
                let t = s.to_string();
                if t.len() > 500 {
                    s = Value::String(format!("{}...", t.chars().take(500).collect::<String>()));
                }
                self.samples.push(match obs.note {
                    Some(n) => json!({"case": s, "observed": n}),
                    None => json!({ "case": s }),
                });
            }
        }
    }
}

struct Viol {
    message: String,
    case: Value,
}

type Watch = Arc<Mutex<Option<(Instant, Box<dyn Fn() -> Value + Send>, String)>>>;

pub struct Worker {
    watch: Watch,
    journal: Option<std::path::PathBuf>,
    id: usize,
}

thread_local! {
    static PANICS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        PANICS.with(|p| p.set(p.get() + 1));
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {loc}: {msg}")));
    }));
}

/// Run `f`, turning a panic into an error message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panicked".into()))
}

/// Called before every case with a number that is a function of the case: for
/// seeding whatever the code under test draws randomness from.
pub static BEFORE_CASE: std::sync::OnceLock<fn(u64)> = std::sync::OnceLock::new();
/// Called after every case with its result, and whether anything panicked in
/// it: for properties that look at how the cases of others are carried out.
pub static AFTER_CASE: std::sync::OnceLock<fn(Check, &mut Obs, bool) -> Check> = std::sync::OnceLock::new();
fn evaluate<C: Serialize>(c: &C, obs: &mut Obs, check: &dyn Fn(&C, &mut Obs) -> Check) -> Check {
    before(c);
    let n = PANICS.with(|p| p.get());
    let r = match guarded(|| check(c, obs)) {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    match AFTER_CASE.get() {
        Some(f) => f(r, obs, PANICS.with(|p| p.get()) != n),
        None => r,
    }
}
fn before<C: Serialize>(c: &C) {
    if let Some(f) = BEFORE_CASE.get() {
        f(crate::hash::fnv(&serde_json::to_vec(c).unwrap()))
    }
}

impl Worker {
    fn case<C: Clone + Serialize + Send + 'static>(
        &self,
        part: &str,
        c: &C,
        check: &(dyn Fn(&C, &mut Obs) -> Check + Sync),
    ) -> (Check, Obs) {
        let cc = c.clone();
        if let Some(j) = &self.journal {
            let v = json!({"part": part, "case": c});
            let _ = std::fs::write(j.join(format!("w{}.json", self.id)), v.to_string());
        }
        *self.watch.lock().unwrap() =
            Some((Instant::now(), Box::new(move || serde_json::to_value(&cc).unwrap()), part.to_string()));
        let mut obs = Obs::default();
        let r = evaluate(c, &mut obs, &|c, o| check(c, o));
        *self.watch.lock().unwrap() = None;
        (r, obs)
    }
}

type Job = Box<dyn Fn(&Worker, &RunCfg, &As, usize) -> (Cov, Option<(usize, Viol)>) + Send + Sync>;

pub struct Part {
    pub name: String,
    pub rule: String,
    shards: usize,
    job: Job,
    run_as: As,
    replay: Box<dyn Fn(&Value) -> Result<Check, String> + Send + Sync>,
}

impl Part {
    /// This part for another property: under another name and rule, with one
    /// case in `thin`.
    pub fn borrowed(mut self, prefix: &str, rule: &str, thin: usize) -> Part {
        self.name = format!("{prefix}{}", self.name);
        self.rule = format!("{rule} (cases: {})", self.rule);
        self.run_as = As { prefix: format!("{prefix}{}", self.run_as.prefix), thin };
        self
    }
}

pub const SHARDS: usize = 8;

fn mix(seed: u64, name: &str, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, c) in out.chunks_mut(8).enumerate() {
        let k = format!("{seed}/{name}/{shard}/{i}");
        c.copy_from_slice(&crate::hash::fnv(k.as_bytes()).to_le_bytes());
    }
    out
}

/// Random cases from a strategy. `counts` are for the quick and the thorough
/// tier.
pub fn prop<C, S, M, F>(name: &str, rule: &str, counts: (u32, u32), strat: M, check: F) -> Part
where
    C: Clone + Debug + Serialize + DeserializeOwned + Send + 'static,
    S: Strategy<Value = C> + 'static,
    M: Fn() -> S + Send + Sync + 'static,
    F: Fn(&C, &mut Obs) -> Check + Send + Sync + 'static,
{
    let check: Arc<dyn Fn(&C, &mut Obs) -> Check + Send + Sync> = Arc::new(check);
    let c2 = check.clone();
    let n = name.to_string();
    let job: Job = Box::new(move |w, cfg, run_as, shard| {
        // the quick tier's counts have grown threefold since they were written
        let total = (if cfg.tier == Tier::Quick { (3 * counts.0).min(counts.1.max(counts.0)) } else { counts.1 }) / run_as.thin as u32;
        let full = format!("{}{n}", run_as.prefix);
        let mine = total as usize / SHARDS + usize::from(shard < total as usize % SHARDS);
        let mut cov = Cov::default();
        if mine == 0 {
            return (cov, None);
        }
        let config = Config {
            cases: mine as u32,
            failure_persistence: None,
            max_shrink_iters: 3000,
            max_global_rejects: 1 << 20,
            max_local_rejects: 1 << 20,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &mix(cfg.seed, &n, shard));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strat = strat();
        let mut cov_cell = std::cell::RefCell::new(&mut cov);
        let failed = AtomicBool::new(false);
        let deadline = std::cell::Cell::new(None::<Instant>);
        let r = runner.run(&strat, |c| {
            // shrinking must end even when every case is slow
            if let Some(d) = deadline.get() {
                if Instant::now() > d {
                    return Ok(());
                }
            } else if cfg.over() {
                cov_cell.borrow_mut().left_out += 1;
                return Ok(());
            }
            let (r, obs) = w.case(&full, &c, &|c, o| check(c, o));
            if !failed.load(Ordering::Relaxed) {
                cov_cell.borrow_mut().add(obs, || serde_json::to_value(&c).unwrap());
            }
            r.map_err(|e| {
                if !failed.swap(true, Ordering::Relaxed) {
                    deadline.set(Some(Instant::now() + Duration::from_secs(if cfg.over() { 15 } else { 40 })));
                }
                TestCaseError::fail(e)
            })
        });
        let _ = cov_cell.get_mut();
        let v = match r {
            Ok(()) => None,
            Err(TestError::Fail(why, c)) => Some((
                0,
                Viol { message: why.message().to_string(), case: serde_json::to_value(&c).unwrap() },
            )),
            Err(TestError::Abort(why)) => panic!("generation gave up: {why}"),
        };
        (cov, v)
    });
    Part { name: name.into(), rule: rule.into(), shards: SHARDS, job, run_as: As { prefix: String::new(), thin: 1 }, replay: replayer(c2) }
}

fn replayer<C: Serialize + DeserializeOwned + 'static>(
    check: Arc<dyn Fn(&C, &mut Obs) -> Check + Send + Sync>,
) -> Box<dyn Fn(&Value) -> Result<Check, String> + Send + Sync> {
    Box::new(move |v| {
        let c: C = serde_json::from_value(v.clone()).map_err(|e| format!("replay file: {e}"))?;
        let mut o = Obs::default();
        Ok(evaluate(&c, &mut o, &|c, o| check(c, o)))
    })
}

/// Every case of a finite family: `n(tier)` of them, `get(i)`.
pub fn sweep<C, N, G, F>(name: &str, rule: &str, n: N, get: G, check: F) -> Part
where
    C: Clone + Debug + Serialize + DeserializeOwned + Send + 'static,
    N: Fn(Tier) -> usize + Send + Sync + 'static,
    G: Fn(usize) -> C + Send + Sync + 'static,
    F: Fn(&C, &mut Obs) -> Check + Send + Sync + 'static,
{
    let check: Arc<dyn Fn(&C, &mut Obs) -> Check + Send + Sync> = Arc::new(check);
    let c2 = check.clone();
    let nm = name.to_string();
    let best = Arc::new(AtomicUsize::new(usize::MAX));
    let job: Job = Box::new(move |w, cfg, run_as, shard| {
        let total = n(cfg.tier).div_ceil(run_as.thin);
        let full = format!("{}{nm}", run_as.prefix);
        let mut cov = Cov::default();
        let mut viol = None;
        let mut i = shard;
        while i < total && i < best.load(Ordering::Relaxed) {
            if cfg.over() {
                cov.left_out += 1;
                i += SHARDS;
                continue;
            }
            let c = get(i * run_as.thin);
            let (r, obs) = w.case(&full, &c, &|c, o| check(c, o));
            cov.add(obs, || serde_json::to_value(&c).unwrap());
            if let Err(e) = r {
                best.fetch_min(i, Ordering::Relaxed);
                viol = Some((i, Viol { message: e, case: serde_json::to_value(&c).unwrap() }));
                break;
            }
            i += SHARDS;
        }
        (cov, viol)
    });
    Part { name: name.into(), rule: rule.into(), shards: SHARDS, job, run_as: As { prefix: String::new(), thin: 1 }, replay: replayer(c2) }
}

/// A value a strategy yields for a seed; for fixtures.
pub fn sample<S: Strategy>(s: &S, seed: u64) -> S::Value {
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &mix(seed, "sample", 0));
    let mut r = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);
    s.new_tree(&mut r).expect("sample").current()
}

pub fn run_parts(property: &str, config: &str, parts: Vec<Part>, cfg: RunCfg, out: &std::path::Path) {
    install_panic_hook();
    let start = Instant::now();
    let parts = Arc::new(parts);
    let jobs: Arc<Vec<(usize, usize)>> =
        Arc::new(parts.iter().enumerate().flat_map(|(p, part)| (0..part.shards).map(move |s| (p, s))).collect());
    let next = Arc::new(AtomicUsize::new(0));
    let results: Arc<Mutex<Vec<(usize, Cov, Option<(usize, Viol)>, f64)>>> = Arc::new(Mutex::new(vec![]));
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16);
    let mut handles = vec![];
    let mut watches: Vec<Watch> = vec![];
    for id in 0..threads {
        let watch: Watch = Arc::new(Mutex::new(None));
        watches.push(watch.clone());
        let (parts, jobs, next, results, cfg) =
            (parts.clone(), jobs.clone(), next.clone(), results.clone(), cfg.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let w = Worker { watch, journal: cfg.journal.clone(), id };
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= jobs.len() {
                            break;
                        }
                        let (p, s) = jobs[i];
                        let t = Instant::now();
                        let (cov, v) = (parts[p].job)(&w, &cfg, &parts[p].run_as, s);
                        results.lock().unwrap().push((p, cov, v, t.elapsed().as_secs_f64()));
                    }
                })
                .expect("thread"),
        );
    }
    let done = Arc::new(AtomicBool::new(false));
    // a case that does not end is a violation too
    let hang = {
        let (done, watches, property, config, out, limit) =
            (done.clone(), watches.clone(), property.to_string(), config.to_string(), out.to_path_buf(), cfg.hang_s);
        std::thread::spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                for w in &watches {
                    let g = w.lock().unwrap();
                    if let Some((t, case, part)) = &*g {
                        if t.elapsed() > Duration::from_secs(limit) {
                            let v = json!({
                                "property": property, "config": config, "parts": [],
                                "violations": [{"part": part, "case": case(),
                                    "message": format!("no result after {limit} s")}],
                            });
                            std::fs::write(&out, v.to_string()).expect("report");
                            std::process::exit(0);
                        }
                    }
                }
            }
        })
    };
    let mut broken = None;
    for h in handles {
        if let Err(_e) = h.join() {
            broken = Some(());
        }
    }
    done.store(true, Ordering::Relaxed);
    let _ = hang.join();
    if broken.is_some() {
        eprintln!("a worker of the driver itself failed");
        std::process::exit(3);
    }
    let mut covs: Vec<Cov> = (0..parts.len()).map(|_| Cov::default()).collect();
    let mut viols: Vec<Option<(usize, Viol)>> = (0..parts.len()).map(|_| None).collect();
    let mut times = vec![0f64; parts.len()];
    let mut rs = std::mem::take(&mut *results.lock().unwrap());
    rs.sort_by_key(|r| r.0);
    for (p, cov, v, t) in rs {
        covs[p].merge(cov);
        times[p] += t;
        if let Some((rank, v)) = v {
            let size = v.case.to_string().len();
            let better = match &viols[p] {
                None => true,
                Some((r0, v0)) => (rank, size) < (*r0, v0.case.to_string().len()),
            };
            if better {
                viols[p] = Some((rank, v));
            }
        }
    }
    let mut pj = vec![];
    for ((part, c), t) in parts.iter().zip(&covs).zip(&times) {
        pj.push(json!({
            "name": part.name, "rule": part.rule, "evaluations": c.evaluations, "nontrivial": c.nontrivial,
            "distinct_nontrivial": c.distinct.len(), "classes": c.classes, "samples": c.samples,
            "left_out": c.left_out, "cpu_s": (t * 100.0).round() / 100.0,
        }));
    }
    let vj: Vec<Value> = viols
        .iter()
        .enumerate()
        .filter_map(|(p, v)| {
            v.as_ref().map(|(_, v)| json!({"part": parts[p].name, "message": v.message, "case": v.case}))
        })
        .collect();
    let rep = json!({"property": property, "config": config, "parts": pj, "violations": vj,
        "wall_s": start.elapsed().as_secs_f64()});
    std::fs::write(out, rep.to_string()).expect("report");
}

/// Re-run one recorded case. Some(true): it still fails.
pub fn replay(parts: Vec<Part>, part: &str, case: &Value) -> Option<Check> {
    install_panic_hook();
    for p in parts {
        if p.name == part {
            let case = case.clone();
            let r = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || (p.replay)(&case))
                .expect("thread")
                .join()
                .expect("replay");
            return match r {
                Ok(c) => Some(c),
                Err(e) => {
                    eprintln!("{e}");
                    None
                }
            };
        }
    }
    None
}
