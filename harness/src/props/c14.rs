//! C14: overlapping session operations behave as if run one after another.
use std::{
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll, Wake, Waker},
    time::{Duration, Instant},
};

use anyhow::Result as AResult;
use async_trait::async_trait;
use openid4vp::verifier::{
    session::{MemoryStore, Session, SessionStore, Status},
    Verifier,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};
use url::Url;
use uuid::Uuid;

use super::{c11::Resp, rig::*};
use crate::{ensure, ensure_eq, fail, fw::*, kit::*};

// ---------------------------------------------------------------------------------------------
// the store under test, with a point at which another task can run before and after each access

#[derive(Debug, Clone)]
struct YieldStore(MemoryStore);

struct Once(bool);

impl Future for Once {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

fn gap() -> Once {
    Once(false)
}

#[async_trait]
impl SessionStore for YieldStore {
    async fn initiate(&self, session: Session) -> AResult<()> {
        gap().await;
        let r = self.0.initiate(session).await;
        gap().await;
        r
    }
    async fn update_status(&self, uuid: Uuid, status: Status) -> AResult<()> {
        gap().await;
        let r = self.0.update_status(uuid, status).await;
        gap().await;
        r
    }
    async fn advance_status(&self, uuid: Uuid, status: Status) -> AResult<Session> {
        gap().await;
        let r = self.0.advance_status(uuid, status).await;
        gap().await;
        r
    }
    async fn get_session(&self, uuid: Uuid) -> AResult<Session> {
        gap().await;
        let r = self.0.get_session(uuid).await;
        gap().await;
        r
    }
    async fn remove_session(&self, uuid: Uuid) -> AResult<()> {
        gap().await;
        let r = self.0.remove_session(uuid).await;
        gap().await;
        r
    }
}

// ---------------------------------------------------------------------------------------------
// plans and histories

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Act {
    Retrieve(u8),
    Poll(u8),
    /// session, kind of outcome, pauses of the validator
    Verify(u8, u8, u8),
    /// A further session, then retrieved and polled through its reference.
    Build,
    Remove(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    /// For each session whether it is passed by reference.
    sessions: Vec<bool>,
    tasks: Vec<Vec<Act>>,
    /// Which of the runnable tasks runs next.
    schedule: Vec<u8>,
    removes: bool,
}

fn act() -> BoxedStrategy<Act> {
    prop_oneof![
        4 => any::<u8>().prop_map(Act::Retrieve),
        4 => any::<u8>().prop_map(Act::Poll),
        4 => (any::<u8>(), 0u8..3, 0u8..4).prop_map(|(s, o, y)| Act::Verify(s, o, y)),
        1 => Just(Act::Build),
        1 => any::<u8>().prop_map(Act::Remove),
    ]
    .boxed()
}

fn plan(tasks: std::ops::Range<usize>, acts: std::ops::Range<usize>) -> BoxedStrategy<Plan> {
    (
        prop_oneof![2 => vec(prop::bool::weighted(0.7), 1..2), 1 => vec(prop::bool::weighted(0.7), 2..4)],
        vec(vec(act(), acts), tasks),
        vec(any::<u8>(), 0..120),
        prop::bool::weighted(0.15),
    )
        .prop_map(|(sessions, tasks, schedule, removes)| Plan { sessions, tasks, schedule, removes })
        .boxed()
}

fn strat(t: Tier) -> BoxedStrategy<Plan> {
    match t {
        Tier::Quick => plan(2..5, 1..5),
        Tier::Thorough => prop_oneof![plan(2..5, 1..5), plan(3..7, 2..9)].boxed(),
    }
}

fn strat_threads(t: Tier) -> BoxedStrategy<Plan> {
    match t {
        Tier::Quick => plan(2..5, 4..16),
        Tier::Thorough => plan(2..7, 4..40),
    }
}

#[derive(Debug, Clone)]
struct Event {
    task: usize,
    /// Place in the plan, which makes its outcome unique.
    index: usize,
    kind: Kind,
    session: Uuid,
    start: u64,
    end: u64,
    result: Result<Json, String>,
    /// When the validator began and ended.
    validator: Vec<(u64, u64)>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Kind {
    Retrieve,
    Poll,
    Verify,
    Remove,
}

fn outcome(task: usize, index: usize, kind: u8) -> OutcomePlan {
    let tag = format!("{task}.{index}");
    match kind {
        0 => OutcomePlan::Error(tag),
        1 => OutcomePlan::Failure(tag),
        _ => OutcomePlan::Success(json!(tag)),
    }
}

#[derive(Clone)]
struct World {
    verifiers: [Verifier; 2],
    store: Arc<dyn SessionStore + Send + Sync>,
    clock: Arc<AtomicU64>,
    log: Arc<Mutex<Vec<Event>>>,
    errors: Arc<Mutex<Vec<String>>>,
    sessions: Vec<Uuid>,
    removes: bool,
    threads: bool,
}

impl World {
    fn now(&self) -> u64 {
        self.clock.fetch_add(1, Ordering::SeqCst)
    }

    fn pick(&self, n: u8) -> Uuid {
        self.sessions[n as usize % self.sessions.len()]
    }

    async fn pause(&self) {
        if self.threads {
            std::thread::yield_now();
        } else {
            gap().await;
        }
    }

    async fn act(&self, task: usize, index: usize, a: &Act) {
        let v = &self.verifiers[(task + index) % 2];
        let start = self.now();
        let mut validator = vec![];
        let (kind, session, result) = match a {
            Act::Retrieve(n) => (Kind::Retrieve, self.pick(*n), v.retrieve_authorization_request(self.pick(*n)).await.map(|s| json!(s)).map_err(|e| format!("{e:#}"))),
            Act::Poll(n) => (Kind::Poll, self.pick(*n), v.poll_status(self.pick(*n)).await.map(|s| status_json(&s)).map_err(|e| format!("{e:#}"))),
            Act::Remove(n) if self.removes => (Kind::Remove, self.pick(*n), self.store.remove_session(self.pick(*n)).await.map(|_| Json::Null).map_err(|e| format!("{e:#}"))),
            Act::Remove(n) => (Kind::Poll, self.pick(*n), v.poll_status(self.pick(*n)).await.map(|s| status_json(&s)).map_err(|e| format!("{e:#}"))),
            Act::Verify(n, o, y) => {
                let out = outcome(task, index, *o).lib();
                let runs: Arc<Mutex<Vec<(u64, u64)>>> = Default::default();
                let r = {
                    let (me, runs, y) = (self.clone(), runs.clone(), *y);
                    v.verify_response(self.pick(*n), Resp::Encrypted(format!("{task}.{index}")).lib(), move |_, _| {
                        Box::pin(async move {
                            let a = me.now();
                            for _ in 0..y {
                                me.pause().await;
                            }
                            runs.lock().unwrap().push((a, me.now()));
                            out
                        })
                    })
                    .await
                };
                validator = runs.lock().unwrap().clone();
                (Kind::Verify, self.pick(*n), r.map(|_| Json::Null).map_err(|e| format!("{e:#}")))
            }
            Act::Build => {
                // private to this task: everything about it is sequential
                let tag = format!("{task}.{index}");
                let wm = metadata(json!({"client_id_prefixes_supported": ["decentralized_identifier"]}));
                let r = async {
                    let (id, _) = quick_request(v, 0, &tag).build(wm).await?;
                    let first = status_json(&v.poll_status(id).await?);
                    let jwt = v.retrieve_authorization_request(id).await?;
                    let then = status_json(&v.poll_status(id).await?);
                    Ok::<_, anyhow::Error>((first, jwt, then))
                }
                .await;
                match r {
                    Err(e) => self.errors.lock().unwrap().push(format!("operations on a session of one task failed: {e:#}")),
                    Ok((first, jwt, then)) => {
                        let expect = json!(if (task + index) % 2 == 0 { "by reference" } else { "sent" });
                        if first != expect || then != json!("sent") {
                            self.errors.lock().unwrap().push(format!("session of one task: statuses {first} and {then}"));
                        }
                        if jws_payload(&jwt).map(|p| p["nonce"].clone()) != Some(json!(format!("nonce {tag}"))) {
                            self.errors.lock().unwrap().push(format!("session of one task: another request {jwt}"));
                        }
                    }
                }
                return;
            }
        };
        let end = self.now();
        self.log.lock().unwrap().push(Event { task, index, kind, session, start, end, result, validator });
    }

    async fn run(&self, task: usize, acts: &[Act]) {
        for (i, a) in acts.iter().enumerate() {
            self.act(task, i, a).await;
        }
    }
}

/// Judges a history of one session that existed before the overlapping operations.
fn judge(p: &Plan, id: Uuid, by_ref: bool, jwt: &Json, log: &[Event], last: Option<Json>) -> Check {
    let ev: Vec<&Event> = log.iter().filter(|e| e.session == id).collect();
    let removed_from = ev.iter().filter(|e| e.kind == Kind::Remove).map(|e| e.start).min();
    let removed_by = ev.iter().filter(|e| e.kind == Kind::Remove).map(|e| e.end).min();
    let ok_removes = ev.iter().filter(|e| e.kind == Kind::Remove && e.result.is_ok()).count();
    ensure_eq!(ok_removes, usize::from(removed_from.is_some()), "successful removals of one session");
    ensure_eq!(last.is_some(), removed_from.is_none(), "session exists in the end");
    let tag = |e: &Event| match &p.tasks[e.task][e.index] {
        Act::Verify(_, o, _) => outcome(e.task, e.index, *o).status(),
        _ => Json::Null,
    };
    for e in &ev {
        if e.kind == Kind::Verify {
            ensure!(e.validator.len() <= 1, "the validator ran {} times", e.validator.len());
        }
        match &e.result {
            Err(m) => {
                if e.kind != Kind::Remove {
                    ensure!(
                        removed_from.is_some_and(|t| t < e.end),
                        "an operation failed for no other reason than overlapping others ({:?}): {m}",
                        e.kind
                    );
                }
                continue;
            }
            Ok(_) => {
                if e.kind != Kind::Remove {
                    ensure!(!removed_by.is_some_and(|t| t < e.start), "{:?} succeeded after the session was removed", e.kind);
                }
                if e.kind == Kind::Verify {
                    ensure_eq!(e.validator.len(), 1, "runs of the validator of a verified response");
                    ensure!(e.start <= e.validator[0].0 && e.validator[0].1 <= e.end, "validator ran outside its operation");
                }
            }
        }
        match (e.kind, &e.result) {
            (Kind::Retrieve, Ok(j)) => ensure_eq!(j, jwt, "retrieved request"),
            (Kind::Poll, Ok(s)) => {
                // at least what was complete before the poll began
                let mut least = u8::from(!by_ref);
                for f in &ev {
                    if f.result.is_ok() && f.end < e.start {
                        match f.kind {
                            Kind::Retrieve => least = least.max(1),
                            Kind::Verify => least = 3,
                            Kind::Poll => least = least.max(rank(f.result.as_ref().unwrap())),
                            Kind::Remove => {}
                        }
                    }
                }
                ensure!(rank(s) >= least, "a poll reported {s} after the session had got to {least}");
                // at most what had begun before it ended
                match rank(s) {
                    1 => ensure!(
                        !by_ref || ev.iter().any(|f| f.kind == Kind::Retrieve && f.start < e.end),
                        "a session nobody fetched is reported as sent"
                    ),
                    2 => ensure!(ev.iter().any(|f| f.kind == Kind::Verify && f.start < e.end), "a response nobody sent is reported as received"),
                    3 => {
                        let Some(w) = ev.iter().find(|f| f.kind == Kind::Verify && tag(f) == *s) else {
                            fail!("a poll reported the outcome {s}, which no validator returned")
                        };
                        ensure!(w.validator.first().is_some_and(|v| v.1 < e.end), "the outcome {s} was reported before the validator returned it");
                        // not overwritten for certain before the poll began
                        let over = ev.iter().find(|f| {
                            f.kind == Kind::Verify
                                && f.result.is_ok()
                                && f.validator.first().is_some_and(|v| v.0 > w.end)
                                && f.end < e.start
                        });
                        ensure!(over.is_none(), "a poll reported the outcome {s}, which {over:?} had replaced");
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
    let Some(last) = last else { return Ok(()) };
    let verified: Vec<&&Event> = ev.iter().filter(|e| e.kind == Kind::Verify).collect();
    if verified.is_empty() {
        let sent = !by_ref || ev.iter().any(|e| e.kind == Kind::Retrieve);
        ensure_eq!(last, json!(if sent { "sent" } else { "by reference" }), "status in the end");
    } else {
        let Some(w) = verified.iter().find(|e| tag(e) == last) else {
            fail!("{} responses were verified, but the status in the end is {last}", verified.len())
        };
        ensure!(
            !verified.iter().any(|f| f.validator.first().is_some_and(|v| v.0 > w.end)),
            "the outcome in the end is {last}, which a later response had replaced"
        );
    }
    Ok(())
}

fn setup(p: &Plan, threads: bool) -> Result<(World, MemoryStore, Vec<(Uuid, bool, Json)>), Fail> {
    let memory = MemoryStore::default();
    let store: Arc<dyn SessionStore + Send + Sync> = if threads { Arc::new(memory.clone()) } else { Arc::new(YieldStore(memory.clone())) };
    let make = |by_ref: bool| -> Result<Verifier, Fail> {
        let mut b = Verifier::builder()
            .with_client(quick_client(1).client()?)
            .with_session_store(store.clone())
            .with_submission_endpoint(Url::parse("https://v.example/s").unwrap());
        if by_ref {
            b = b.by_reference(Url::parse("https://v.example/r").unwrap());
        }
        Ok(crate::run!(b.build()).map_err(|e| format!("{e:#}"))?)
    };
    let verifiers = [make(true)?, make(false)?];
    let wm = metadata(json!({"client_id_prefixes_supported": ["decentralized_identifier"]}));
    let mut sessions = vec![];
    for (i, by_ref) in p.sessions.iter().enumerate() {
        let (id, _) = crate::run!(quick_request(&verifiers[usize::from(!by_ref)], 0, &format!("s{i}")).build(wm.clone())).map_err(|e| format!("{e:#}"))?;
        let jwt = crate::run!(memory.get_session(id)).map_err(|e| format!("{e:#}"))?.authorization_request_jwt;
        sessions.push((id, *by_ref, json!(jwt)));
    }
    let world = World {
        verifiers,
        store,
        clock: Default::default(),
        log: Default::default(),
        errors: Default::default(),
        sessions: sessions.iter().map(|s| s.0).collect(),
        removes: p.removes,
        threads,
    };
    Ok((world, memory, sessions))
}

fn finish(p: &Plan, world: &World, memory: &MemoryStore, sessions: &[(Uuid, bool, Json)], obs: &mut Obs) -> Check {
    if let Some(e) = world.errors.lock().unwrap().first() {
        fail!("{e}")
    }
    let log = world.log.lock().unwrap().clone();
    let overlap = log.iter().any(|a| {
        log.iter().any(|b| a.task != b.task && a.session == b.session && a.kind != Kind::Poll && a.start < b.end && b.start < a.end)
    });
    if overlap {
        obs.nontrivial();
        obs.label("operations on one session overlapped");
    }
    if log.iter().any(|a| a.kind == Kind::Verify && log.iter().any(|b| b.kind == Kind::Retrieve && a.session == b.session && a.start < b.end && b.start < a.end)) {
        obs.label("retrieval overlapped verification");
    }
    obs.extra(log.len() as u64);
    for (id, by_ref, jwt) in sessions {
        let last = crate::run!(memory.get_session(*id)).ok().map(|s| status_json(&s.status));
        judge(p, *id, *by_ref, jwt, &log, last)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// one thread, a chosen schedule

struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let (world, memory, sessions) = setup(p, false)?;
    let mut tasks: Vec<(Arc<Flag>, Option<Pin<Box<dyn Future<Output = ()> + '_>>>)> = p
        .tasks
        .iter()
        .enumerate()
        .map(|(i, acts)| {
            let w = &world;
            let f: Pin<Box<dyn Future<Output = ()> + '_>> = Box::pin(async move { w.run(i, acts).await });
            (Arc::new(Flag(AtomicBool::new(true))), Some(f))
        })
        .collect();
    let mut next = p.schedule.iter().copied().chain((0u8..=255).cycle());
    for _ in 0..200_000 {
        if tasks.iter().all(|t| t.1.is_none()) {
            break;
        }
        let ready: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].1.is_some() && tasks[*i].0 .0.load(Ordering::SeqCst)).collect();
        if ready.is_empty() {
            fail!("the overlapping operations block each other for ever")
        }
        let i = ready[next.next().unwrap() as usize % ready.len()];
        let (flag, fut) = &mut tasks[i];
        flag.0.store(false, Ordering::SeqCst);
        let waker = Waker::from(flag.clone());
        if fut.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&waker)).is_ready() {
            *fut = None;
        }
    }
    ensure!(tasks.iter().all(|t| t.1.is_none()), "the overlapping operations do not end");
    drop(tasks);
    finish(p, &world, &memory, &sessions, obs)
}

// ---------------------------------------------------------------------------------------------
// several threads

struct Unpark(std::thread::Thread);

impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}

fn block_on<F: Future>(f: F, limit: Duration) -> Option<F::Output> {
    let mut f = std::pin::pin!(f);
    let waker = Waker::from(Arc::new(Unpark(std::thread::current())));
    let mut cx = Context::from_waker(&waker);
    let t = Instant::now();
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
        if t.elapsed() > limit {
            return None;
        }
        std::thread::park_timeout(Duration::from_millis(50));
    }
}

fn test_threads(p: &Plan, obs: &mut Obs) -> Check {
    let (world, memory, sessions) = setup(p, true)?;
    let barrier = std::sync::Barrier::new(p.tasks.len());
    let done: Vec<Result<bool, ()>> = std::thread::scope(|s| {
        let hs: Vec<_> = p
            .tasks
            .iter()
            .enumerate()
            .map(|(i, acts)| {
                let (world, barrier) = (&world, &barrier);
                s.spawn(move || {
                    barrier.wait();
                    guarded(|| block_on(world.run(i, acts), Duration::from_secs(30)).is_some()).map_err(|_| ())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Err(()))).collect()
    });
    for d in done {
        match d {
            Err(()) => fail!("an operation panicked in a thread"),
            Ok(false) => fail!("overlapping operations in several threads did not end within 30 s"),
            Ok(true) => {}
        }
    }
    finish(p, &world, &memory, &sessions, obs)
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        level: "exploration",
        assumptions: &[
            "interleavings at the store accesses and inside the validators are chosen by the generator; in the threads check the operating system chooses them",
            "stores of the caller's own that do not override the atomic advance are not claimed",
        ],
        subs: vec![
            Box::new(SubCheck { name: "schedules", rule: "a fetch, verification or removal overlapped another task's operation on the same session", quick: 16_000, thorough: 400_000, strat, examples: no_examples, test }),
            Box::new(SubCheck { name: "threads", rule: "a fetch, verification or removal overlapped another thread's operation on the same session", quick: 1_500, thorough: 20_000, strat: strat_threads, examples: no_examples, test: test_threads }),
        ],
    }
}
