//! Runs the sub-checks of a property: generates cases from seeds, executes them on all cores,
//! counts what they covered, shrinks a failure to a replay file and writes the evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";
const THREADS: usize = 8;

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// wrong data: definitive
    Hard(String),
    /// something did not happen in time: has to happen again to count
    Soft(String),
    /// the harness cannot judge this run
    Harness(String),
}

impl Fail {
    pub fn msg(&self) -> &str {
        match self {
            Fail::Hard(m) | Fail::Soft(m) | Fail::Harness(m) => m,
        }
    }
}

pub type Res = Result<(), Fail>;

pub fn hard<T>(m: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Hard(m.into()))
}

pub fn soft<T>(m: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Soft(m.into()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return $crate::runner::hard(format!($($a)*)); } };
}

/// What a case observed
#[derive(Default)]
pub struct Obs {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub findings: BTreeMap<String, String>,
    pub steps: u64,
    pub trace: Vec<String>,
    pub tracing: bool,
}

impl Obs {
    pub fn label(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_default() += 1;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn step(&mut self) {
        self.steps += 1;
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            self.trace.push(s);
        }
    }
    /// A divergence with a key: quiet if the known-findings file lists it
    pub fn known(&mut self, key: &str, msg: impl Into<String>) -> Res {
        let msg = msg.into();
        if known_findings().iter().any(|(_, k, _)| k == key) {
            self.findings.insert(key.to_string(), msg);
            Ok(())
        } else {
            Err(Fail::Hard(format!("[{key}] {msg}")))
        }
    }
}

/// (property, key, text) of every `finding:` line
pub fn known_findings() -> &'static Vec<(String, String, String)> {
    static F: std::sync::OnceLock<Vec<(String, String, String)>> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let text =
            std::fs::read_to_string(format!("{VERIF}/known-findings.txt")).unwrap_or_default();
        text.lines()
            .filter_map(|l| l.strip_prefix("finding: property="))
            .filter_map(|l| {
                let (p, rest) = l.split_once(' ')?;
                let (k, text) = rest.strip_prefix("key=")?.split_once(' ')?;
                Some((p.to_string(), k.to_string(), text.to_string()))
            })
            .collect()
    })
}

// ------------------------------------------------------------------ panics

thread_local! {
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if std::env::var_os("VX_PANIC").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
        let _ = PANICS.try_with(|p| p.borrow_mut().push(format!("{loc}: {msg}")));
    }));
}

pub fn take_panics() -> Vec<String> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

/// Runs a closure, turns a panic in it, or in a task it ran on this thread, into a failure
fn guarded(f: impl FnOnce() -> Res) -> Res {
    take_panics();
    let r = catch_unwind(AssertUnwindSafe(f));
    let panics = take_panics();
    // locations in the harness are relative paths
    if let Some(p) = panics.iter().find(|p| !p.starts_with("src/")) {
        return hard(format!("panic at {p}"));
    }
    if let Some(p) = panics.first() {
        return Err(Fail::Harness(format!("harness panic at {p}")));
    }
    r.unwrap_or_else(|_| Err(Fail::Harness("panic without location".into())))
}

// ------------------------------------------------------------------ slots shared with the parent

/// Per thread: [sub + 1 (0 idle), case index, start in ms, limit in ms]
pub struct Slots(*mut AtomicU64);
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

impl Slots {
    pub fn open(path: &Path) -> Slots {
        use std::os::fd::AsRawFd;
        let len = THREADS * 32;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("slots file");
        f.set_len(len as u64).expect("slots size");
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Slots(p as *mut AtomicU64)
    }
    fn at(&self, t: usize, i: usize) -> &AtomicU64 {
        unsafe { &*self.0.add(t * 4 + i) }
    }
    pub fn start(&self, t: usize, sub: usize, case: u64, limit: u64) {
        self.at(t, 1).store(case, Ordering::Relaxed);
        self.at(t, 2).store(now_ms(), Ordering::Relaxed);
        self.at(t, 3).store(limit, Ordering::Relaxed);
        self.at(t, 0).store(sub as u64 + 1, Ordering::Release);
    }
    pub fn end(&self, t: usize) {
        self.at(t, 0).store(0, Ordering::Release);
    }
    pub fn get(&self, t: usize) -> Option<(usize, u64, u64, u64)> {
        let s = self.at(t, 0).load(Ordering::Acquire);
        (s > 0).then(|| {
            (
                s as usize - 1,
                self.at(t, 1).load(Ordering::Relaxed),
                self.at(t, 2).load(Ordering::Relaxed),
                self.at(t, 3).load(Ordering::Relaxed),
            )
        })
    }
}

pub fn now_ms() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap_or_default()
        .as_millis() as u64
}

// ------------------------------------------------------------------ sub-checks

pub struct Prop<C> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strat: fn(bool) -> BoxedStrategy<C>,
    pub run: fn(&C, &mut Obs) -> Res,
    /// executions spent on shrinking a failure
    pub shrink: u32,
    /// seconds a case may take before it is taken to hang
    pub limit: u64,
    /// use one thread only
    pub serial: bool,
}

impl<C> Prop<C> {
    /// cheap deterministic cases
    pub fn pure(
        name: &'static str,
        quick: u64,
        strat: fn(bool) -> BoxedStrategy<C>,
        run: fn(&C, &mut Obs) -> Res,
    ) -> Self {
        let quick = quick * 8;
        Prop { name, quick, thorough: quick * 12, strat, run, shrink: 20000, limit: 30, serial: false }
    }
    /// cases with real sockets
    pub fn net(
        name: &'static str,
        quick: u64,
        strat: fn(bool) -> BoxedStrategy<C>,
        run: fn(&C, &mut Obs) -> Res,
    ) -> Self {
        Prop { name, quick, thorough: quick * 12, strat, run, shrink: 300, limit: 150, serial: false }
    }
    pub fn thorough(mut self, n: u64) -> Self {
        self.thorough = n;
        self
    }
    pub fn boxed(self) -> Box<dyn Sub>
    where
        C: Clone + Debug + Serialize + DeserializeOwned + Hash + Send + Sync + 'static,
    {
        Box::new(self)
    }
}

#[derive(Default)]
pub struct Tally {
    pub evaluations: u64,
    pub steps: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub findings: BTreeMap<String, (u64, String)>,
    pub samples: Vec<Value>,
    pub retried: Vec<String>,
}

pub struct Violation {
    pub sub: String,
    pub msg: String,
    pub case: Value,
    pub index: u64,
    pub trace: Vec<String>,
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub stop: AtomicBool,
    pub deadline: Instant,
    pub tally: Mutex<Tally>,
    pub violation: Mutex<Option<Violation>>,
    pub harness_error: Mutex<Option<String>>,
    pub slots: Slots,
}

pub trait Sub: Sync + Send {
    fn name(&self) -> &'static str;
    fn count(&self, thorough: bool) -> u64;
    fn serial(&self) -> bool;
    fn worker(&self, ctx: &Ctx, sub: usize, thread: usize, next: &AtomicU64);
    fn case(&self, seed: u64, index: u64, thorough: bool) -> Value;
    fn exec(&self, case: &Value, trace: bool) -> (Res, Obs);
}

fn mix(seed: u64, name: &str, index: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        // FNV-1a, stable across toolchains
        let mut h = 0xcbf29ce484222325u64;
        for b in seed
            .to_le_bytes()
            .iter()
            .chain(name.as_bytes())
            .chain(&index.to_le_bytes())
            .chain(&i.to_le_bytes())
        {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        out[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

fn runner_for(seed: u64, name: &str, index: u64) -> TestRunner {
    let config = Config { failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(
        config,
        TestRng::from_seed(RngAlgorithm::ChaCha, &mix(seed, name, index)),
    )
}

impl<C> Prop<C>
where
    C: Clone + Debug + Serialize + DeserializeOwned + Hash + Send + Sync + 'static,
{
    fn tree(
        &self,
        s: &BoxedStrategy<C>,
        seed: u64,
        index: u64,
    ) -> Box<dyn ValueTree<Value = C>> {
        let mut r = runner_for(seed, self.name, index);
        s.new_tree(&mut r).expect("strategy rejected too much")
    }

    fn once(&self, c: &C, obs: &mut Obs) -> Res {
        guarded(|| (self.run)(c, obs))
    }

    /// A failure counts if it is definitive or happens three times out of three
    fn confirmed(&self, c: &C, retried: &mut Vec<String>) -> Res {
        let mut last = Ok(());
        for _ in 0..3 {
            match self.once(c, &mut Obs::default()) {
                Err(Fail::Soft(m)) => {
                    retried.push(m.clone());
                    last = Err(Fail::Soft(m));
                }
                r => return r,
            }
        }
        last
    }
}

impl<C> Sub for Prop<C>
where
    C: Clone + Debug + Serialize + DeserializeOwned + Hash + Send + Sync + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn count(&self, thorough: bool) -> u64 {
        if thorough {
            self.thorough
        } else {
            self.quick
        }
    }
    fn serial(&self) -> bool {
        self.serial
    }

    fn worker(&self, ctx: &Ctx, sub: usize, thread: usize, next: &AtomicU64) {
        let strat = (self.strat)(ctx.thorough);
        let total = self.count(ctx.thorough);
        let mut t = Tally::default();
        loop {
            if ctx.stop.load(Ordering::Relaxed) || Instant::now() > ctx.deadline {
                break;
            }
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= total {
                break;
            }
            ctx.slots.start(thread, sub, i, self.limit * 1000);
            let mut tree = self.tree(&strat, ctx.seed, i);
            let case = tree.current();
            let mut obs = Obs::default();
            let mut r = self.once(&case, &mut obs);
            if let Err(Fail::Soft(_)) = r {
                ctx.slots.start(thread, sub, i, self.limit * 4000);
                let n = t.retried.len();
                r = self.confirmed(&case, &mut t.retried);
                for m in &mut t.retried[n..] {
                    *m = format!("{} case {i}: {m}", self.name);
                }
            }
            t.evaluations += 1;
            t.steps += obs.steps;
            for (l, n) in &obs.labels {
                *t.labels.entry(format!("{}/{}", self.name, l)).or_default() += n;
            }
            for (k, m) in obs.findings {
                let e = t.findings.entry(k).or_insert((0, m));
                e.0 += 1;
            }
            if obs.nontrivial {
                let mut h = std::hash::DefaultHasher::new();
                (self.name, &case).hash(&mut h);
                if t.nontrivial.insert(h.finish()) && i < 3 {
                    t.samples.push(json!({"check": self.name, "index": i, "case": case}));
                }
            }
            match r {
                Ok(()) => {}
                Err(Fail::Harness(m)) => {
                    let mut e = ctx.harness_error.lock().unwrap();
                    e.get_or_insert(format!("{} case {i}: {m}", self.name));
                    ctx.stop.store(true, Ordering::Relaxed);
                }
                Err(first) => {
                    if ctx.stop.swap(true, Ordering::Relaxed) {
                        // another thread is already shrinking one
                        ctx.slots.end(thread);
                        break;
                    }
                    ctx.slots.start(thread, sub, i, 3_600_000);
                    let (best, fail) = self.shrink(&mut *tree, case, first, &mut t.retried);
                    let mut obs = Obs { tracing: true, ..Obs::default() };
                    let _ = self.once(&best, &mut obs);
                    *ctx.violation.lock().unwrap() = Some(Violation {
                        sub: self.name.to_string(),
                        msg: fail.msg().to_string(),
                        case: serde_json::to_value(&best).unwrap_or_default(),
                        index: i,
                        trace: obs.trace,
                    });
                }
            }
            ctx.slots.end(thread);
        }
        let mut all = ctx.tally.lock().unwrap();
        all.evaluations += t.evaluations;
        all.steps += t.steps;
        all.nontrivial.extend(t.nontrivial);
        for (l, n) in t.labels {
            *all.labels.entry(l).or_default() += n;
        }
        for (k, (n, m)) in t.findings {
            let e = all.findings.entry(k).or_insert((0, m));
            e.0 += n;
        }
        all.samples.extend(t.samples);
        all.retried.extend(t.retried);
    }

    fn case(&self, seed: u64, index: u64, thorough: bool) -> Value {
        let s = (self.strat)(thorough);
        serde_json::to_value(self.tree(&s, seed, index).current()).unwrap_or_default()
    }

    fn exec(&self, case: &Value, trace: bool) -> (Res, Obs) {
        let mut obs = Obs { tracing: trace, ..Obs::default() };
        let r = match serde_json::from_value::<C>(case.clone()) {
            Ok(c) => self.once(&c, &mut obs),
            Err(e) => Err(Fail::Harness(format!("case: {e}"))),
        };
        (r, obs)
    }
}

impl<C> Prop<C>
where
    C: Clone + Debug + Serialize + DeserializeOwned + Hash + Send + Sync + 'static,
{
    fn shrink(
        &self,
        tree: &mut dyn ValueTree<Value = C>,
        case: C,
        fail: Fail,
        retried: &mut Vec<String>,
    ) -> (C, Fail) {
        let (mut best, mut msg) = (case, fail);
        let until = Instant::now() + Duration::from_secs(60);
        let mut left = self.shrink;
        if !tree.simplify() {
            return (best, msg);
        }
        while left > 0 && Instant::now() < until {
            left -= 1;
            let c = tree.current();
            let r = match self.once(&c, &mut Obs::default()) {
                Err(Fail::Soft(_)) => self.confirmed(&c, retried),
                r => r,
            };
            match r {
                Err(f @ (Fail::Hard(_) | Fail::Soft(_))) => {
                    best = c;
                    msg = f;
                    if !tree.simplify() {
                        break;
                    }
                }
                _ => {
                    if !tree.complicate() {
                        break;
                    }
                }
            }
        }
        (best, msg)
    }
}

// ------------------------------------------------------------------ a property's run

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Box<dyn Sub>>,
}

pub fn replay_path(id: &str, sub: &str) -> PathBuf {
    let dir = PathBuf::from(format!("{VERIF}/evidence/replay"));
    let _ = std::fs::create_dir_all(&dir);
    dir.join(format!("{id}-{sub}.json"))
}

pub fn write_replay(id: &str, seed: u64, v: &Violation) -> PathBuf {
    let path = replay_path(id, &v.sub);
    let j = json!({
        "property": id, "check": v.sub, "seed": seed, "index": v.index,
        "failure": v.msg, "case": v.case, "trace": v.trace,
        "replay_with": format!("./check replay {}", path.display()),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap_or_default());
    path
}

pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}

pub fn env_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

pub fn write_evidence(id: &str, seed: u64, thorough: bool, coverage: Value, assumptions: &[&str], wall: f64, violations: u64) {
    let j = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed as i64,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
    let _ = std::fs::write(
        format!("{VERIF}/evidence/{id}.json"),
        serde_json::to_string_pretty(&j).unwrap_or_default() + "\n",
    );
}

/// The worker process. Returns its exit code.
pub fn work(p: &Property, slots: &Path, only: Option<&str>) -> i32 {
    let start = Instant::now();
    let thorough = env_thorough();
    let seed = env_seed();
    let budget = if thorough { 3 * 3600 } else { 420 };
    let ctx = Ctx {
        seed,
        thorough,
        stop: AtomicBool::new(false),
        deadline: start + Duration::from_secs(budget),
        tally: Mutex::default(),
        violation: Mutex::default(),
        harness_error: Mutex::default(),
        slots: Slots::open(slots),
    };
    let mut per_sub = BTreeMap::new();
    for (si, sub) in p.subs.iter().enumerate() {
        if only.is_some_and(|o| o != sub.name()) || ctx.stop.load(Ordering::Relaxed) {
            continue;
        }
        let t0 = Instant::now();
        let before = ctx.tally.lock().unwrap().evaluations;
        let next = AtomicU64::new(0);
        let threads = if sub.serial() { 1 } else { THREADS };
        std::thread::scope(|s| {
            for t in 0..threads {
                let (ctx, next, sub) = (&ctx, &next, &**sub);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .name(format!("w{t}"))
                    .spawn_scoped(s, move || {
                        crate::net::set_thread(t);
                        sub.worker(ctx, si, t, next)
                    })
                    .expect("thread");
            }
        });
        let after = ctx.tally.lock().unwrap().evaluations;
        per_sub.insert(
            sub.name().to_string(),
            json!({"cases": after - before, "planned": sub.count(thorough),
                   "seconds": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0}),
        );
        eprintln!("{} {}: {} cases {:.1}s", p.id, sub.name(), after - before, t0.elapsed().as_secs_f64());
    }
    let t = ctx.tally.into_inner().unwrap();
    let violation = ctx.violation.into_inner().unwrap();
    let harness_error = ctx.harness_error.into_inner().unwrap();
    let mut samples = t.samples;
    samples.truncate(12);
    for s in &mut samples {
        // keep the evidence readable
        let text = s.to_string();
        if text.len() > 2500 {
            let cut: String = text.chars().take(2500).collect();
            *s = json!({"check": s["check"], "index": s["index"], "case_truncated": cut});
        }
    }
    let findings: Vec<Value> = t
        .findings
        .iter()
        .map(|(k, (n, m))| json!({"key": k, "observed": n, "what": m}))
        .collect();
    let coverage = json!({
        "evaluations": t.evaluations,
        "distinct_nontrivial": t.nontrivial.len(),
        "rule": p.rule,
        "samples": samples,
        "steps": t.steps,
        "labels": t.labels,
        "checks": per_sub,
        "known_findings": findings,
        "unconfirmed_soft_failures": t.retried.len(),
    });
    let wall = start.elapsed().as_secs_f64();
    write_evidence(p.id, seed, thorough, coverage, p.assumptions, wall, violation.is_some() as u64);
    for m in t.retried.iter().take(5) {
        eprintln!("{}: soft failure, re-run: {m}", p.id);
    }
    if let Some(v) = violation {
        let path = write_replay(p.id, seed, &v);
        println!("{} {}: {}", p.id, v.sub, v.msg);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if let Some(e) = harness_error {
        eprintln!("{}: no verdict: {e}", p.id);
        return 2;
    }
    for (prop, key, text) in known_findings() {
        if prop == p.id {
            if let Some((n, _)) = t.findings.get(key) {
                println!("KNOWN-FINDING: property={} {} ({}; observed {} times)", p.id, key, text, n);
            } else {
                println!("note: known finding {key} of {} was not observed in this run", p.id);
            }
        }
    }
    println!("{}: held on {} cases in {:.1}s", p.id, t.evaluations, wall);
    0
}

/// The parent process: starts the worker and judges hangs and crashes.
pub fn supervise(p: &Property, extra: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let start = Instant::now();
    let exe = std::env::current_exe().expect("exe");
    let slots_path = std::env::temp_dir().join(format!("vx-slots-{}", std::process::id()));
    let slots = Slots::open(&slots_path);
    let mut child = std::process::Command::new(&exe)
        .arg("work")
        .arg(p.id)
        .arg(&slots_path)
        .args(extra)
        .spawn()
        .expect("spawn");
    let mut cleared: HashSet<(usize, u64)> = HashSet::new();
    let code = loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                if let Some(c) = st.code() {
                    break c;
                }
                eprintln!("{}: worker ended by signal {:?}", p.id, st.signal());
                let running: Vec<_> = (0..THREADS).filter_map(|t| slots.get(t)).collect();
                let mut found = 2;
                for (sub, index, _, limit) in running {
                    if let Some(how) = rerun(&exe, p, sub, index, limit) {
                        found = report_death(p, sub, index, &how, start);
                        break;
                    }
                }
                break found;
            }
            Ok(None) => {}
            Err(e) => {
                eprintln!("wait: {e}");
                break 2;
            }
        }
        let now = now_ms();
        let mut verdict = None;
        for t in 0..THREADS {
            if let Some((sub, index, since, limit)) = slots.get(t) {
                let age = now.saturating_sub(since);
                if age > limit && !cleared.contains(&(sub, index)) {
                    if let Some(how) = rerun(&exe, p, sub, index, limit) {
                        // still the same case?
                        if slots.get(t).map(|s| (s.0, s.1, s.2)) == Some((sub, index, since)) {
                            verdict = Some(report_death(p, sub, index, &how, start));
                            break;
                        }
                    }
                    cleared.insert((sub, index));
                } else if age > limit * 4 && cleared.contains(&(sub, index)) {
                    eprintln!("{}: case {index} of {} did not end", p.id, p.subs[sub].name());
                    verdict = Some(2);
                    break;
                }
            }
        }
        if let Some(v) = verdict {
            let _ = child.kill();
            let _ = child.wait();
            break v;
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    let _ = std::fs::remove_file(&slots_path);
    code
}

/// Runs one case in a process of its own; how it failed to end, if it did
fn rerun(exe: &Path, p: &Property, sub: usize, index: u64, limit: u64) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    let mut c = std::process::Command::new(exe)
        .args(["one", p.id, p.subs[sub].name(), &index.to_string()])
        .stdout(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let until = Instant::now() + Duration::from_millis(limit);
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                return st.signal().map(|s| format!("the process is ended by signal {s}"));
            }
            Ok(None) => {}
            Err(_) => return None,
        }
        if Instant::now() > until {
            let _ = c.kill();
            let _ = c.wait();
            return Some(format!("the case does not end within {} s", limit / 1000));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn report_death(p: &Property, sub: usize, index: u64, how: &str, start: Instant) -> i32 {
    let seed = env_seed();
    let thorough = env_thorough();
    let case = p.subs[sub].case(seed, index, thorough);
    let v = Violation {
        sub: p.subs[sub].name().to_string(),
        msg: how.to_string(),
        case: case.clone(),
        index,
        trace: vec![],
    };
    let path = write_replay(p.id, seed, &v);
    write_evidence(
        p.id,
        seed,
        thorough,
        json!({"evaluations": index + 1, "distinct_nontrivial": 1, "rule": p.rule,
               "samples": [{"check": v.sub, "index": index, "case": case}]}),
        p.assumptions,
        start.elapsed().as_secs_f64(),
        1,
    );
    println!("{} {}: {how}", p.id, v.sub);
    println!("VIOLATION property={} replay={}", p.id, path.display());
    1
}

pub fn limit_memory() {
    let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
}

/// many sockets
pub fn raise_files() {
    unsafe {
        let mut lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        if libc::getrlimit(libc::RLIMIT_NOFILE, &mut lim) == 0 {
            lim.rlim_cur = lim.rlim_max.min(65536);
            libc::setrlimit(libc::RLIMIT_NOFILE, &lim);
        }
    }
}

pub fn boxed<C: Debug + 'static>(s: impl Strategy<Value = C> + 'static) -> BoxedStrategy<C> {
    s.boxed()
}
