//! The check framework: seeded, sharded generation with shrinking, counting and replay files.
//!
//! A property is a list of sub-checks.  A sub-check has a generator of *plans* (plain serde data,
//! every random choice is in them), and a pure test function from a plan to a verdict.  Each
//! sub-check runs its explicit examples first and then a fixed number of generated cases, split
//! over a fixed number of shards with seeds derived from VERIF_SEED; the result does not depend on
//! timing or on the number of cores.

use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    future::Future,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    pin::pin,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, OnceLock,
    },
    task::{Context, Poll, Wake, Waker},
    time::{Duration, Instant},
};

use proptest::{
    collection::vec,
    prelude::any,
    prop_oneof,
    strategy::{BoxedStrategy, Strategy},
    test_runner::{
        Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRng, TestRunner,
    },
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value as Json};
use sha2::{Digest, Sha256};

pub const SHARDS: u32 = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Why a case fails.
#[derive(Debug, Clone)]
pub struct Fail {
    /// Signature under which the failure may be listed as a known finding.
    pub sig: Option<&'static str>,
    pub msg: String,
}

impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { sig: None, msg }
    }
}

impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail {
            sig: None,
            msg: msg.to_string(),
        }
    }
}

pub type Check = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::fw::Fail::from(format!($($t)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::fw::Fail::from(format!($($t)*))) } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err($crate::fw::Fail::from(format!("{}: got {}, expected {}", format!($($t)*), $crate::fw::short(&format!("{a:?}")), $crate::fw::short(&format!("{b:?}")))))
        }
    }};
}

pub fn short(s: &str) -> String {
    if s.len() <= 600 {
        return s.to_string();
    }
    let mut end = 600;
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    format!("{}… ({} bytes)", &s[..end], s.len())
}

/// What a case observed about itself: whether it was non-trivial, and which classes it is in.
#[derive(Default)]
pub struct Obs {
    nontrivial: bool,
    labels: Vec<&'static str>,
    evaluations: u64,
}

impl Obs {
    /// The case exercised what the property is about (the rule is the sub-check's `rule`).
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    /// Further evaluations of the code under test inside one case (mutants of one message, ...).
    pub fn extra(&mut self, n: u64) {
        self.evaluations += n;
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub cases: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Json>,
    pub known: BTreeMap<&'static str, String>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.cases += o.cases;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        self.known.extend(o.known);
    }
}

pub struct Violation {
    pub msg: String,
    pub plan: Json,
}

pub struct Outcome {
    pub stats: Stats,
    pub violation: Option<Violation>,
    /// The machinery itself failed (not a verdict).
    pub error: Option<String>,
}

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub known: HashSet<String>,
    /// Multiplies the number of cases (for experiments).
    pub scale: f64,
}

pub trait Sub: Send + Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn run(&self, ctx: &Ctx) -> Outcome;
    fn replay(&self, plan: Json) -> Result<Check, String>;
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Box<dyn Sub>>,
}

pub struct SubCheck<V> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strat: fn(Tier) -> BoxedStrategy<V>,
    pub examples: fn() -> Vec<V>,
    pub test: fn(&V, &mut Obs) -> Check,
}

pub fn no_examples<V>() -> Vec<V> {
    vec![]
}

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(SHARDS as usize) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Since when each shard has been running its current case (0: none), in milliseconds.
static SLOTS: [AtomicU64; SHARDS as usize + 1] = [const { AtomicU64::new(0) }; SHARDS as usize + 1];
/// Where to write each case before it is run, after a run that did not survive.
pub static TRACE: OnceLock<PathBuf> = OnceLock::new();
static START: OnceLock<Instant> = OnceLock::new();
/// After how many seconds no further cases are generated.
const QUICK_LIMIT: u64 = 420;
const THOROUGH_LIMIT: u64 = 5 * 3600;
/// Whether that happened.
pub static STOPPED: AtomicBool = AtomicBool::new(false);

pub fn now_ms() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// The longest time that a case has been running now.
pub fn longest_case() -> Duration {
    let now = now_ms();
    let of = |s: &AtomicU64| match s.load(Ordering::Relaxed) {
        0 => 0,
        t => now.saturating_sub(t),
    };
    Duration::from_millis(SLOTS.iter().map(of).max().unwrap_or(0))
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
        } else {
            default(info)
        }
    }));
}

/// Runs `f`; a panic inside becomes an `Err` with its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(before));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// The first plan with some members of the second.
fn mix<V: Clone + Serialize + DeserializeOwned>(a: &V, b: &V, how: u8, bits: u64) -> V {
    fn cross(a: &mut Json, b: &Json, how: u8, bits: u64) {
        let (Json::Object(x), Json::Object(y)) = (a, b) else { return };
        if x.len() == 1 && y.len() == 1 {
            // a variant of an enumeration
            for (k, v) in x.iter_mut() {
                if let Some(w) = y.get(k) {
                    cross(v, w, how, bits);
                }
            }
            return;
        }
        let n = x.len() as u64;
        for (i, (k, v)) in x.iter_mut().enumerate() {
            let i = i as u64;
            let take = match how {
                0 => i == bits % n,
                1 => i == bits % n || i == (bits >> 16) % n,
                2 => i != bits % n,
                _ => bits >> (i % 64) & 1 == 1,
            };
            if let (true, Some(w)) = (take, y.get(k)) {
                *v = w.clone();
            }
        }
    }
    let (Ok(mut x), Ok(y)) = (serde_json::to_value(a), serde_json::to_value(b)) else { return b.clone() };
    cross(&mut x, &y, how, bits);
    serde_json::from_value(x).unwrap_or_else(|_| b.clone())
}

/// How a list of cases is written.
fn plan_json<V: Serialize>(v: &[V]) -> Json {
    match v {
        [one] => serde_json::to_value(one).unwrap_or(Json::Null),
        all => json!({ "history": all }),
    }
}

impl<V: Debug + Clone + Serialize + DeserializeOwned + Send + 'static> SubCheck<V> {
    fn one(&self, v: &V, obs: &mut Obs) -> Check {
        match guarded(|| (self.test)(v, obs)) {
            Ok(r) => r,
            Err(p) => Err(Fail::from(format!("panic: {p}"))),
        }
    }

    /// The cases of a history one after the other: none changes what is right for the next.
    fn all(&self, cases: &[V], obs: &mut Obs) -> Check {
        let (last, before) = cases.split_last().expect("a case");
        for (i, v) in before.iter().enumerate() {
            let mut o = Obs::default();
            let r = self.one(v, &mut o);
            obs.extra(1 + o.evaluations);
            r.map_err(|f| Fail { sig: f.sig, msg: if i == 0 { f.msg } else { format!("{} (after {i} similar cases)", f.msg) } })?;
        }
        if !before.is_empty() {
            obs.label("a history of similar cases");
        }
        let r = self.one(last, obs);
        r.map_err(|f| Fail { sig: f.sig, msg: if before.is_empty() { f.msg } else { format!("{} (after {} similar cases)", f.msg, before.len()) } })
    }

    /// Single cases and, where they are independent of one another, histories of similar ones.
    fn cases(&self, ctx: &Ctx) -> BoxedStrategy<Vec<V>> {
        let one = (self.strat)(ctx.tier).prop_map(|v| vec![v]);
        if !crate::mixes(ctx.id, self.name) {
            return one.boxed();
        }
        let of = || (self.strat)(ctx.tier);
        let mixed = (of(), of(), vec((0u8..4, any::<u64>()), 1..4), any::<bool>()).prop_map(|(a, b, how, also)| {
            let mut v = vec![];
            if also {
                v.push(a.clone());
            }
            v.extend(how.into_iter().map(|(k, bits)| mix(&a, &b, k, bits)));
            v.push(a);
            v
        });
        prop_oneof![7 => one, 1 => mixed].boxed()
    }

    fn record(&self, v: &[V], obs: Obs, stats: &mut Stats) {
        stats.cases += 1;
        stats.evaluations += 1 + obs.evaluations;
        for l in obs.labels {
            *stats.labels.entry(l).or_default() += 1;
        }
        if obs.nontrivial {
            let text = format!("{v:?}");
            let mut h = std::collections::hash_map::DefaultHasher::new();
            text.hash(&mut h);
            if stats.nontrivial.insert(h.finish()) && stats.samples.len() < 2 {
                let j = plan_json(v);
                let t = j.to_string();
                stats.samples.push(if t.len() <= 1500 {
                    json!({"check": self.name, "case": j})
                } else {
                    json!({"check": self.name, "case_prefix": short(&t)})
                });
            }
        }
    }

    /// Runs one plan; a failure listed as known counts as passed, but is remembered.
    fn step(&self, ctx: &Ctx, v: &[V], stats: &mut Stats) -> Result<(), String> {
        let mut obs = Obs::default();
        if let Some(dir) = TRACE.get() {
            let j = json!({"property": ctx.id, "check": self.name, "message": "the process did not survive this case", "plan": plan_json(v)});
            let _ = std::fs::write(dir.join(format!("{}.json", SLOT.with(|s| s.get()))), j.to_string());
        }
        let slot = &SLOTS[SLOT.with(|s| s.get())];
        slot.store(now_ms(), Ordering::Relaxed);
        let r = self.all(v, &mut obs);
        slot.store(0, Ordering::Relaxed);
        self.record(v, obs, stats);
        match r {
            Ok(()) => Ok(()),
            Err(f) => match f.sig {
                Some(s) if ctx.known.contains(s) => {
                    stats.known.entry(s).or_insert(f.msg);
                    Ok(())
                }
                _ => Err(f.msg),
            },
        }
    }

    fn shard(&self, ctx: &Ctx, shard: u32, cases: u32, stop: &AtomicBool) -> Outcome {
        SLOT.with(|s| s.set(shard as usize));
        let mut stats = Stats::default();
        let cell = RefCell::new(&mut stats);
        let mut h = Sha256::new();
        h.update(format!("{}/{}/{}/{}", ctx.id, self.name, ctx.seed, shard));
        let seed: [u8; 32] = h.finalize().into();
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 4000,
            max_shrink_time: 120_000,
            max_global_rejects: 200_000,
            max_local_rejects: 200_000,
            rng_seed: RngSeed::Fixed(0),
            ..Config::default()
        };
        let mut runner =
            TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let strat = self.cases(ctx);
        let failing = Cell::new(false);
        let limit = match ctx.tier {
            Tier::Quick => QUICK_LIMIT,
            Tier::Thorough => THOROUGH_LIMIT,
        };
        let mut res: Result<(), TestError<Vec<V>>> = Ok(());
        for _ in 0..cases {
            // another shard already failed: the verdict is settled
            if stop.load(Ordering::Relaxed) {
                break;
            }
            // what was explored so far is what the check covers
            if now_ms() > limit * 1000 {
                STOPPED.store(true, Ordering::Relaxed);
                break;
            }
            let tree = match strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(r) => {
                    res = Err(TestError::Abort(r));
                    break;
                }
            };
            let one = runner.run_one(tree, |v| {
                let mut scratch = Stats::default();
                let r = if failing.get() {
                    self.step(ctx, &v, &mut scratch)
                } else {
                    self.step(ctx, &v, *cell.borrow_mut())
                };
                r.map_err(|m| {
                    failing.set(true);
                    stop.store(true, Ordering::Relaxed);
                    TestCaseError::fail(m)
                })
            });
            if let Err(e) = one {
                res = Err(e);
                break;
            }
        }
        let (violation, error) = match res {
            Ok(()) => (None, None),
            Err(TestError::Fail(reason, v)) => (
                Some(Violation {
                    msg: reason.message().to_string(),
                    plan: plan_json(&v),
                }),
                None,
            ),
            Err(TestError::Abort(r)) => (None, Some(format!("generation aborted: {r}"))),
        };
        Outcome {
            stats,
            violation,
            error,
        }
    }
}

impl<V: Debug + Clone + Serialize + DeserializeOwned + Send + 'static> Sub for SubCheck<V> {
    fn name(&self) -> &'static str {
        self.name
    }

    fn rule(&self) -> &'static str {
        self.rule
    }

    fn run(&self, ctx: &Ctx) -> Outcome {
        let mut total = Outcome {
            stats: Stats::default(),
            violation: None,
            error: None,
        };
        for v in (self.examples)() {
            if let Err(msg) = self.step(ctx, &[v.clone()], &mut total.stats) {
                total.violation = Some(Violation {
                    msg,
                    plan: plan_json(&[v]),
                });
                return total;
            }
        }
        let cases = match ctx.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let cases = ((cases as f64 * ctx.scale) as u32).max(1);
        let per = cases.div_ceil(SHARDS);
        let stop = AtomicBool::new(false);
        let results: Vec<Outcome> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..SHARDS)
                .map(|i| {
                    let stop = &stop;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || self.shard(ctx, i, per, stop))
                        .expect("thread")
                })
                .collect();
            hs.into_iter()
                .map(|h| {
                    h.join().unwrap_or_else(|_| Outcome {
                        stats: Stats::default(),
                        violation: None,
                        error: Some("a shard of the machinery panicked".into()),
                    })
                })
                .collect()
        });
        for r in results {
            total.stats.merge(r.stats);
            if total.violation.is_none() {
                total.violation = r.violation;
            }
            if total.error.is_none() {
                total.error = r.error;
            }
        }
        total
    }

    fn replay(&self, plan: Json) -> Result<Check, String> {
        let v: Vec<V> = match plan.get("history") {
            Some(all) => serde_json::from_value(all.clone()).map_err(|e| e.to_string())?,
            None => vec![serde_json::from_value(plan).map_err(|e| e.to_string())?],
        };
        if v.is_empty() {
            return Err("no case".into());
        }
        Ok(self.all(&v, &mut Obs::default()))
    }
}

// ---------------------------------------------------------------------------------------------
// driving futures

struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

/// Drives a future none of whose dependencies is outside this thread (no timers, no I/O): when it
/// is pending and nothing has woken it, it can never complete.
pub fn drive<F: Future>(f: F) -> Result<F::Output, String> {
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = pin!(f);
    for _ in 0..100_000 {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return Ok(v),
            Poll::Pending => {
                if !flag.0.swap(false, Ordering::SeqCst) {
                    return Err("the operation can never complete (deadlock)".into());
                }
            }
        }
    }
    Err("the operation did not complete within 100000 polls".into())
}

/// [drive] for test functions that return early on a stuck operation.
#[macro_export]
macro_rules! run {
    ($f:expr) => {
        $crate::fw::drive($f).map_err($crate::fw::Fail::from)?
    };
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
