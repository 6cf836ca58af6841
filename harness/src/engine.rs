//! Case engine: drives proptest strategies, counts what was generated, shrinks failures and
//! turns them into replay files. Each run is a function of the code under test and VERIF_SEED.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

/// Panics on runtime threads (named "sut-N"), by thread name.
static SUT_PANICS: Mutex<BTreeMap<String, Vec<String>>> = Mutex::new(BTreeMap::new());
pub struct Panics;
impl Panics {
    pub fn of(name: &str) -> Vec<String> {
        SUT_PANICS.lock().unwrap().get(name).cloned().unwrap_or_default()
    }
    pub fn forget(name: &str) {
        SUT_PANICS.lock().unwrap().remove(name);
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<panic>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panic at {}: {}", loc, msg);
        if std::env::var_os("PLV_SHOW_PANICS").is_some() || std::thread::current().name() == Some("main") {
            eprintln!("[{:?}] {}", std::thread::current().name(), text);
        }
        if let Some(name) = std::thread::current().name().filter(|n| n.starts_with("sut-")) {
            SUT_PANICS.lock().unwrap().entry(name.to_string()).or_default().push(text.clone());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text));
    }));
}

pub fn take_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

/// Runs `f`, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(take_panic().unwrap_or_else(|| "panic".into())),
    }
}

/// What one case reports about itself.
#[derive(Default)]
pub struct Obs {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub counters: Vec<(&'static str, u64)>,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l)
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l)
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c
    }
    pub fn add(&mut self, name: &'static str, n: u64) {
        self.counters.push((name, n))
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    parts: BTreeMap<String, u64>,
    rules: Vec<String>,
    exhaustive: Vec<String>,
}

pub struct Ctx {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    stats: Mutex<Stats>,
    violation: Mutex<Option<String>>,
    inconclusive: Mutex<Option<String>>,
    /// Part and case to replay instead of generating.
    pub replay: Option<(String, Value)>,
    pub assumptions: Mutex<Vec<String>>,
}

fn fnv(data: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    data.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn new(id: &str, tier: &str, seed: u64, replay: Option<(String, Value)>) -> Self {
        Ctx {
            id: id.into(),
            tier: tier.into(),
            seed,
            start: Instant::now(),
            stats: Default::default(),
            violation: Default::default(),
            inconclusive: Default::default(),
            replay,
            assumptions: Default::default(),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    /// Scales a case count by tier; thorough runs are `f` times larger.
    pub fn scale(&self, quick: u32, f: u32) -> u32 {
        let n = if self.thorough() { quick.saturating_mul(f) } else { quick };
        match std::env::var("PLV_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(s) => ((n as f64 * s) as u32).max(1),
            None => n,
        }
    }

    pub fn rule(&self, r: &str) {
        let mut st = self.stats.lock().unwrap();
        if !st.rules.iter().any(|x| x == r) {
            st.rules.push(r.into());
        }
    }

    pub fn assume(&self, a: &str) {
        self.assumptions.lock().unwrap().push(a.into());
    }

    /// Records a finite space that was enumerated completely.
    pub fn exhaustive(&self, what: &str, n: u64, nontrivial: u64) {
        let mut st = self.stats.lock().unwrap();
        st.exhaustive.push(format!("{} ({} cases)", what, n));
        st.evaluations += n;
        *st.parts.entry(what.into()).or_default() += n;
        *st.labels.entry("exhaustive-nontrivial".into()).or_default() += nontrivial;
    }

    pub fn failed(&self) -> bool {
        self.violation.lock().unwrap().is_some() || self.inconclusive.lock().unwrap().is_some()
    }

    pub fn set_inconclusive(&self, why: String) {
        let mut v = self.inconclusive.lock().unwrap();
        if v.is_none() {
            *v = Some(why);
        }
    }

    /// Records a violation together with its replay file.
    pub fn violate(&self, part: &str, case: Value, message: &str) {
        let mut v = self.violation.lock().unwrap();
        if v.is_some() {
            return;
        }
        let body = json!({"property": self.id, "part": part, "case": case, "message": message, "seed": self.seed});
        let text = serde_json::to_string_pretty(&body).unwrap();
        let dir = PathBuf::from(VERIF).join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:016x}.json", self.id, fnv(text.as_bytes())));
        let _ = std::fs::write(&path, &text);
        let shown: String = message.chars().take(2000).collect();
        eprintln!("{} [{}]: {}{}", self.id, part, shown, if shown.len() < message.len() { " ..." } else { "" });
        println!("VIOLATION property={} replay={}", self.id, path.display());
        *v = Some(path.display().to_string());
    }

    pub fn finish(&self) -> i32 {
        let st = self.stats.lock().unwrap();
        let viol = self.violation.lock().unwrap().is_some();
        let inc = self.inconclusive.lock().unwrap().clone();
        let ex_nontrivial = st.labels.get("exhaustive-nontrivial").copied().unwrap_or(0);
        let ev = json!({
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": st.evaluations,
                "distinct_nontrivial": st.distinct.len() as u64 + ex_nontrivial,
                "rule": st.rules.join(" "),
                "samples": st.samples,
                "cases_per_part": st.parts,
                "labels": st.labels,
                "enumerated_completely": st.exhaustive,
            },
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": if viol { 1 } else { 0 },
        });
        if self.replay.is_none() {
            let dir = PathBuf::from(VERIF).join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        }
        eprintln!(
            "{}: {} cases, {} distinct non-trivial, {:.1}s",
            self.id,
            st.evaluations,
            st.distinct.len() as u64 + ex_nontrivial,
            self.start.elapsed().as_secs_f64()
        );
        if std::env::var_os("PLV_LABELS").is_some() {
            for (k, v) in &st.labels {
                eprintln!("    {:>9} {}", v, k);
            }
        }
        if viol {
            1
        } else if let Some(why) = inc {
            eprintln!("{}: INCONCLUSIVE: {}", self.id, why);
            2
        } else {
            0
        }
    }

    fn record(&self, part: &str, value: &Value, obs: &Obs, sample: bool) {
        let mut st = self.stats.lock().unwrap();
        st.evaluations += 1;
        *st.parts.entry(part.into()).or_default() += 1;
        for l in &obs.labels {
            *st.labels.entry(format!("{}: {}", part, l)).or_default() += 1;
        }
        for (n, c) in &obs.counters {
            *st.labels.entry(format!("{}: total {}", part, n)).or_default() += c;
        }
        if obs.nontrivial {
            let h = fnv(format!("{}{}", part, value).as_bytes());
            st.distinct.insert(h);
            if sample && st.samples.len() < 12 {
                let text = value.to_string();
                let v = if text.len() > 600 {
                    let mut cut = 600;
                    while !text.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    json!(format!("{}… ({} bytes of JSON)", &text[..cut], text.len()))
                } else {
                    value.clone()
                };
                st.samples.push(json!({"part": part, "case": v}));
            }
        }
    }

    /// Generates `cases` cases of `strategy` and applies `test` to each.
    pub fn run<S, M, F>(&self, part: &str, cases: u32, make: M, test: F)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Clone + Debug + Send + 'static,
        M: Fn() -> S + Sync,
        F: Fn(&S::Value, &mut Obs) -> Result<(), String> + Sync,
    {
        self.run_on(part, cases, workers(), make, test)
    }

    pub fn run_on<S, M, F>(&self, part: &str, cases: u32, threads: usize, make: M, test: F)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Clone + Debug + Send + 'static,
        M: Fn() -> S + Sync,
        F: Fn(&S::Value, &mut Obs) -> Result<(), String> + Sync,
    {
        if self.failed() {
            return;
        }
        let apply = |v: &S::Value, obs: &mut Obs| -> Result<(), String> {
            match guarded(|| test(v, obs)) {
                Ok(r) => r,
                Err(p) => Err(p),
            }
        };
        if let Some((rpart, case)) = &self.replay {
            if rpart == part {
                let v: S::Value = serde_json::from_value(case.clone()).expect("replay case");
                let mut obs = Obs::default();
                let r = apply(&v, &mut obs);
                self.record(part, case, &obs, true);
                if let Err(m) = r {
                    self.violate(part, case.clone(), &m);
                }
            }
            return;
        }
        let stop = AtomicBool::new(false);
        let threads = threads.min(cases as usize).max(1);
        let done = AtomicU64::new(0);
        std::thread::scope(|scope| {
            for w in 0..threads {
                let (stop, done, apply, make) = (&stop, &done, &apply, &make);
                let n = cases as usize / threads + usize::from(w < cases as usize % threads);
                std::thread::Builder::new()
                    .name(format!("w{}", w))
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || {
                        let mut seed = [0u8; 32];
                        let key = format!("{}/{}/{}/{}", self.seed, self.id, part, w);
                        for (i, chunk) in seed.chunks_mut(8).enumerate() {
                            chunk.copy_from_slice(&fnv(format!("{}#{}", key, i).as_bytes()).to_le_bytes());
                        }
                        let config = Config { failure_persistence: None, max_global_rejects: 1 << 20, ..Config::default() };
                        let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
                        let strategy = make();
                        for i in 0..n {
                            if stop.load(Ordering::Relaxed) {
                                return;
                            }
                            let mut tree = strategy.new_tree(&mut runner).expect("generator");
                            let value = tree.current();
                            let watch = Watch::start(self, part, &value);
                            let mut obs = Obs::default();
                            let result = apply(&value, &mut obs);
                            drop(watch);
                            let jv = serde_json::to_value(&value).unwrap();
                            self.record(part, &jv, &obs, i % 50 == 3 || n < 50);
                            done.fetch_add(1, Ordering::Relaxed);
                            if let Err(first) = result {
                                if stop.swap(true, Ordering::SeqCst) {
                                    return;
                                }
                                if first.starts_with(INCONCLUSIVE) {
                                    self.set_inconclusive(first);
                                    return;
                                }
                                let (mut best, mut message) = (value, first);
                                let (t0, mut steps) = (Instant::now(), 0);
                                if tree.simplify() {
                                    loop {
                                        if t0.elapsed() > Duration::from_secs(std::env::var("PLV_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(60)) || steps > 4000 {
                                            break;
                                        }
                                        steps += 1;
                                        let v = tree.current();
                                        let watch = Watch::start(self, part, &v);
                                        let r = apply(&v, &mut Obs::default());
                                        drop(watch);
                                        match r {
                                            Err(m) if !m.starts_with(INCONCLUSIVE) => {
                                                best = v;
                                                message = m;
                                                if !tree.simplify() {
                                                    break;
                                                }
                                            }
                                            _ => {
                                                if !tree.complicate() {
                                                    break;
                                                }
                                            }
                                        }
                                    }
                                }
                                self.violate(part, serde_json::to_value(&best).unwrap(), &message);
                            }
                        }
                    })
                    .unwrap();
            }
        });
        if std::env::var_os("PLV_LABELS").is_some() {
            eprintln!("  part {}: {} cases, t={:.1}s", part, done.load(Ordering::Relaxed), self.start.elapsed().as_secs_f64());
        }
    }

    /// A fixed list of cases (boundary enumerations) checked with the same oracle.
    pub fn each<V, F>(&self, part: &str, cases: Vec<V>, test: F)
    where
        V: Serialize + DeserializeOwned + Clone + Debug + Send + Sync + 'static,
        F: Fn(&V, &mut Obs) -> Result<(), String> + Sync,
    {
        if self.failed() {
            return;
        }
        let cases = match &self.replay {
            Some((p, c)) if p == part => vec![serde_json::from_value(c.clone()).expect("replay case")],
            Some(_) => return,
            None => cases,
        };
        let next = AtomicU64::new(0);
        std::thread::scope(|scope| {
            for w in 0..workers() {
                let (cases, next, test) = (&cases, &next, &test);
                std::thread::Builder::new()
                    .name(format!("e{}", w))
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                        if i >= cases.len() || self.failed() {
                            return;
                        }
                        let watch = Watch::start(self, part, &cases[i]);
                        let mut obs = Obs::default();
                        let r = guarded(|| test(&cases[i], &mut obs)).unwrap_or_else(Err);
                        drop(watch);
                        let jv = serde_json::to_value(&cases[i]).unwrap();
                        self.record(part, &jv, &obs, i % 97 == 5);
                        if let Err(m) = r {
                            if m.starts_with(INCONCLUSIVE) {
                                self.set_inconclusive(m);
                            } else {
                                self.violate(part, jv, &m);
                            }
                        }
                    })
                    .unwrap();
            }
        });
    }
}

/// Prefix of a failure message that reports "could not decide", never a violation.
pub const INCONCLUSIVE: &str = "INCONCLUSIVE";

pub fn workers() -> usize {
    std::env::var("PLV_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}

// ---- CPU-time watch: an operation that burns this much CPU in one case never ends ----

const CPU_LIMIT: Duration = Duration::from_secs(100);

struct WatchEntry {
    clock: libc::clockid_t,
    start: Duration,
    part: String,
    case: Box<dyn Fn() -> Value + Send>,
}

static WATCH: Mutex<BTreeMap<u64, WatchEntry>> = Mutex::new(BTreeMap::new());
static WATCH_ID: AtomicU64 = AtomicU64::new(0);

struct Watch(u64);

pub fn clock(id: libc::clockid_t) -> Duration {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(id, &mut ts) };
    Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32)
}

/// CPU time of a thread; None if it has ended.
pub fn clock_opt(id: libc::clockid_t) -> Option<Duration> {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(id, &mut ts) } != 0 {
        return None;
    }
    Some(Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32))
}

pub fn thread_clock() -> libc::clockid_t {
    let mut id = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut id) };
    id
}

impl Watch {
    fn start<V: Serialize + Clone + Send + 'static>(_ctx: &Ctx, part: &str, v: &V) -> Watch {
        let id = WATCH_ID.fetch_add(1, Ordering::Relaxed);
        let c = thread_clock();
        let v = v.clone();
        WATCH.lock().unwrap().insert(
            id,
            WatchEntry { clock: c, start: clock(c), part: part.into(), case: Box::new(move || serde_json::to_value(&v).unwrap()) },
        );
        Watch(id)
    }
}

impl Drop for Watch {
    fn drop(&mut self) {
        WATCH.lock().unwrap().remove(&self.0);
    }
}

/// Runs until the process ends; reports a case that used up its CPU allowance.
pub fn spawn_cpu_monitor(ctx: Arc<Ctx>) {
    std::thread::Builder::new()
        .name("monitor".into())
        .spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let w = WATCH.lock().unwrap();
            for e in w.values() {
                let used = clock(e.clock).saturating_sub(e.start);
                if used > CPU_LIMIT {
                    ctx.violate(&e.part, (e.case)(), &format!("operation does not end: {:.0}s of CPU time in one case", used.as_secs_f64()));
                    let code = ctx.finish();
                    std::process::exit(code);
                }
            }
        })
        .unwrap();
}

/// splitmix64, used to expand generated seeds into bulk data.
#[derive(Clone)]
pub struct Sm(pub u64);
impl Sm {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(64).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 64 {
        s.push_str(&format!("…({} bytes)", b.len()));
    }
    s
}
