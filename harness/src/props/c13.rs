//! C13: session status follows the protocol history, per session.
use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex},
};

use openid4vp::{
    core::{authorization_request::parameters::State, response::AuthorizationResponse},
    verifier::{
        session::{MemoryStore, Session, SessionStore, Status},
        Verifier,
    },
};
use proptest::{collection::vec, option, prelude::*};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};
use url::Url;
use uuid::Uuid;

use super::{
    c11::{resp, Item, Resp},
    rig::*,
};
use crate::{ensure, ensure_eq, fail, fw::*, gen, kit::*, run};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Who {
    /// A session made before (counted from the latest).
    Made(u8),
    /// Close to the identifier of such a session.
    Near(u8, u8),
    Unknown(u64),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Inner {
    Poll,
    Retrieve,
    Remove,
    Verify(OutcomePlan),
    OtherRemove,
}

/// What the request is like.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Flavour {
    /// Like other requests of the history, nonce included.
    same: bool,
    state: Option<String>,
}

/// How the response relates to its session's request.
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Fit {
    /// Not at all.
    No,
    /// It has the request's state, or none like it.
    State,
    /// It has the latest session's state.
    LatestState,
    /// It also answers the request's query.
    Answer,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Act {
    /// which verifier, mode, 0: build, 1: chosen identifier, 2: digital credentials, 3..: an
    /// identifier used before
    Build(u8, u8, u8, Flavour),
    Retrieve(u8, Who),
    Poll(u8, Who),
    Verify(u8, Who, Box<Resp>, OutcomePlan, Option<Inner>, u8, Fit),
    Remove(Who),
    /// The application reports progress itself.
    Update(Who, u8),
    Get(Who),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    memory: bool,
    acts: Vec<Act>,
}

fn who() -> BoxedStrategy<Who> {
    prop_oneof![
        9 => any::<u8>().prop_map(Who::Made),
        1 => (any::<u8>(), 0u8..6).prop_map(|(a, b)| Who::Near(a, b)),
        1 => any::<u64>().prop_map(Who::Unknown),
    ]
    .boxed()
}

fn flavour() -> BoxedStrategy<Flavour> {
    (prop::bool::weighted(0.3), option::weighted(0.4, gen::text())).prop_map(|(same, state)| Flavour { same, state }).boxed()
}

fn act() -> BoxedStrategy<Act> {
    prop_oneof![
        4 => (0u8..3, 0u8..4, prop_oneof![4 => 0u8..3, 1 => 3u8..6], flavour()).prop_map(|(v, m, h, f)| Act::Build(v, m, h, f)),
        4 => (0u8..3, who()).prop_map(|(v, w)| Act::Retrieve(v, w)),
        2 => (0u8..3, who()).prop_map(|(v, w)| Act::Poll(v, w)),
        4 => (
            0u8..3,
            who(),
            resp(),
            outcome_plan(),
            option::weighted(0.4, prop_oneof![Just(Inner::Poll), Just(Inner::Retrieve), Just(Inner::Remove), outcome_plan().prop_map(Inner::Verify), Just(Inner::OtherRemove)]),
            0u8..3,
            prop_oneof![3 => Just(Fit::No), 1 => Just(Fit::State), 1 => Just(Fit::LatestState), 1 => Just(Fit::Answer)],
        )
            .prop_map(|(v, w, r, o, i, y, f)| Act::Verify(v, w, Box::new(r), o, i, y, f)),
        1 => who().prop_map(Act::Remove),
        1 => (who(), 0u8..3).prop_map(|(w, s)| Act::Update(w, s)),
        1 => who().prop_map(Act::Get),
    ]
    .boxed()
}

fn strat(t: Tier) -> BoxedStrategy<Plan> {
    let n = if t == Tier::Quick { 24 } else { 60 };
    (any::<bool>(), vec(act(), 1..n)).prop_map(|(memory, acts)| Plan { memory, acts }).boxed()
}

#[derive(Debug, Clone)]
struct Model {
    live: BTreeMap<Uuid, Json>,
    /// In order of creation, removed ones included.
    made: Vec<Uuid>,
}

impl Model {
    fn id(&self, w: &Who) -> Uuid {
        let made = |n: u8| {
            if self.made.is_empty() {
                Uuid::from_u128(7)
            } else {
                self.made[self.made.len() - 1 - (n as usize % self.made.len())]
            }
        };
        match w {
            Who::Made(n) => made(*n),
            Who::Near(n, k) => {
                let x = made(*n).as_u128();
                Uuid::from_u128(match k {
                    0 => x.wrapping_add(1),
                    1 => x.wrapping_sub(1),
                    2 => x ^ (1 << 127),
                    3 => x ^ (1 << 64),
                    4 => x & !0xffff,
                    _ => x.swap_bytes(),
                })
            }
            Who::Unknown(n) => Uuid::from_u128(*n as u128 | 1 << 100),
        }
    }
}

async fn yields(n: u8) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let store: Arc<dyn SessionStore + Send + Sync> = if p.memory { Arc::new(MemoryStore::default()) } else { Arc::new(SpyStore::default()) };
    let make = |key: u8, by_ref: bool| -> Result<Verifier, Fail> {
        let mut b = Verifier::builder()
            .with_client(quick_client(key).client()?)
            .with_session_store(store.clone())
            .with_submission_endpoint(Url::parse("https://v.example/s").unwrap());
        if by_ref {
            b = b.by_reference(Url::parse("https://v.example/r").unwrap());
        }
        Ok(run!(b.build()).map_err(|e| format!("{e:#}"))?)
    };
    let verifiers = [make(1, true)?, make(1, false)?, make(2, true)?];
    let mut m = Model { live: BTreeMap::new(), made: vec![] };
    let wm = metadata(json!({"client_id_prefixes_supported": ["decentralized_identifier"]}));
    let mut verified = 0;
    let mut fetched = 0;
    let mut absent = 0;

    for (step, a) in p.acts.iter().enumerate() {
        match a {
            Act::Build(v, mode, how, flavour) => {
                let ver = &verifiers[*v as usize % 3];
                let tag = if flavour.same { "same".to_string() } else { step.to_string() };
                let mut r = quick_request(ver, *mode, &tag);
                if let Some(s) = &flavour.state {
                    r = r.with_request_parameter(State(s.clone()));
                }
                let id = match how {
                    0 => run!(r.build(wm.clone())).map_err(|e| format!("step {step}: {e:#}"))?.0,
                    1 | 3.. => {
                        let id = if *how == 1 { Uuid::from_u128(step as u128 * 3 + 1) } else { m.id(&Who::Made(how - 3)) };
                        run!(r.build_with_session_id(id, wm.clone())).map_err(|e| format!("step {step}: {e:#}"))?;
                        id
                    }
                    _ => run!(r.build_dc_api()).map_err(|e| format!("step {step}: {e:#}"))?.0,
                };
                let s = run!(store.get_session(id)).map_err(|e| format!("step {step}: session of the request just built: {e:#}"))?;
                let status = if *how != 2 && *v % 3 != 1 { "by reference" } else { "sent" };
                let j = session_json(&s);
                ensure_eq!(j["status"], json!(status), "step {step}: initial status");
                ensure_eq!(j["uuid"], json!(id), "step {step}: identifier");
                ensure_eq!(j["object"]["nonce"], json!(format!("nonce {tag}")), "step {step}: request of the session");
                ensure_eq!(j["object"].get("state").cloned(), flavour.state.as_ref().map(|s| json!(s)), "step {step}: state of the request");
                ensure_eq!(jws_payload(&s.authorization_request_jwt), Some(j["object"].clone()), "step {step}: signed request of the session");
                m.live.insert(id, j);
                m.made.retain(|x| *x != id);
                m.made.push(id);
            }
            Act::Retrieve(v, w) => {
                let id = m.id(w);
                let got = run!(verifiers[*v as usize % 3].retrieve_authorization_request(id));
                match m.live.get_mut(&id) {
                    None => {
                        absent += 1;
                        ensure!(got.is_err(), "step {step}: a request was retrieved for a session that does not exist");
                    }
                    Some(s) => {
                        fetched += 1;
                        let got = got.map_err(|e| format!("step {step}: retrieving failed: {e:#}"))?;
                        ensure_eq!(json!(got), s["jwt"], "step {step}: retrieved request");
                        if s["status"] == json!("by reference") {
                            s["status"] = json!("sent");
                        }
                    }
                }
            }
            Act::Poll(v, w) => {
                let id = m.id(w);
                let got = run!(verifiers[*v as usize % 3].poll_status(id));
                match m.live.get(&id) {
                    None => ensure!(got.is_err(), "step {step}: status {got:?} of a session that does not exist"),
                    Some(s) => {
                        let got = got.map_err(|e| format!("step {step}: polling failed: {e:#}"))?;
                        ensure_eq!(status_json(&got), s["status"], "step {step}: status");
                    }
                }
            }
            Act::Verify(v, w, response, outcome, inner, y, fit) => {
                let id = m.id(w);
                let mut response = response.clone();
                if let Resp::Plain { token, state } = &mut *response {
                    let of = |id: Option<&Uuid>| id.and_then(|id| m.live.get(id)).map(|s| s["object"].clone());
                    match (fit, of(Some(&id)), of(m.made.last())) {
                        (Fit::State, Some(o), _) | (Fit::LatestState, _, Some(o)) => *state = o["state"].as_str().map(String::from),
                        (Fit::Answer, Some(o), _) => {
                            *state = o["state"].as_str().map(String::from);
                            let q = o["dcql_query"]["credentials"][0]["id"].as_str().unwrap_or_default().to_string();
                            token.retain(|t| t.0 != q);
                            token.truncate(1);
                            token.insert(0, (q, vec![Item::Text("x~".into())]));
                        }
                        _ => {}
                    }
                }
                let ver = &verifiers[*v as usize % 3];
                let calls: Arc<Mutex<Vec<(Session, AuthorizationResponse)>>> = Default::default();
                let inner_res: Arc<Mutex<Option<Result<Json, String>>>> = Default::default();
                let got = {
                    let (calls, inner_res, store) = (calls.clone(), inner_res.clone(), store.clone());
                    let other = m.live.keys().find(|k| **k != id).copied();
                    let lib_outcome = outcome.lib();
                    let inner = inner.clone();
                    let y = *y;
                    let ver2 = ver.clone();
                    run!(ver.verify_response(id, response.lib(), move |s, r| {
                        Box::pin(async move {
                            calls.lock().unwrap().push((s, r));
                            yields(y).await;
                            let res = match &inner {
                                None => None,
                                Some(Inner::Poll) => Some(ver2.poll_status(id).await.map(|s| status_json(&s)).map_err(|e| format!("{e:#}"))),
                                Some(Inner::Retrieve) => Some(ver2.retrieve_authorization_request(id).await.map(|s| json!(s)).map_err(|e| format!("{e:#}"))),
                                Some(Inner::Remove) => Some(store.remove_session(id).await.map(|_| Json::Null).map_err(|e| format!("{e:#}"))),
                                Some(Inner::OtherRemove) => match other {
                                    Some(o) => Some(store.remove_session(o).await.map(|_| json!(o)).map_err(|e| format!("{e:#}"))),
                                    None => None,
                                },
                                Some(Inner::Verify(o)) => {
                                    let o = o.lib();
                                    Some(
                                        ver2.verify_response(id, Resp::Encrypted("inner".into()).lib(), move |_, _| Box::pin(async move { o }))
                                            .await
                                            .map(|_| Json::Null)
                                            .map_err(|e| format!("{e:#}")),
                                    )
                                }
                            };
                            *inner_res.lock().unwrap() = res;
                            yields(y).await;
                            lib_outcome
                        })
                    }))
                };
                let calls = std::mem::take(&mut *calls.lock().unwrap());
                let inner_res = inner_res.lock().unwrap().take();
                let Some(s) = m.live.get(&id).cloned() else {
                    absent += 1;
                    ensure!(got.is_err(), "step {step}: a response to a session that does not exist was verified");
                    ensure!(calls.is_empty(), "step {step}: the validator was run for a session that does not exist");
                    continue;
                };
                verified += 1;
                ensure_eq!(calls.len(), 1, "step {step}: runs of the validator");
                let (seen, r) = &calls[0];
                let mut seen = session_json(seen);
                ensure!(
                    seen["status"] == s["status"] || seen["status"] == json!("received"),
                    "step {step}: status handed to the validator: {} instead of {}",
                    seen["status"],
                    s["status"]
                );
                seen["status"] = s["status"].clone();
                ensure_eq!(seen, s, "step {step}: session handed to the validator");
                response.same(r).map_err(|f| format!("step {step}: response handed to the validator: {}", f.msg))?;
                let mut gone = false;
                if let Some(res) = inner_res {
                    let res = res.map_err(|e| format!("step {step}: an operation inside the validator failed: {e}"))?;
                    match inner {
                        Some(Inner::Poll) => ensure!(
                            res == s["status"] || res == json!("received"),
                            "step {step}: status {res} inside the validator, was {}",
                            s["status"]
                        ),
                        Some(Inner::Retrieve) => ensure_eq!(res, s["jwt"], "step {step}: request retrieved inside the validator"),
                        Some(Inner::Remove) => gone = true,
                        Some(Inner::OtherRemove) => {
                            let o: Uuid = serde_json::from_value(res).map_err(|e| e.to_string())?;
                            m.live.remove(&o);
                        }
                        _ => {}
                    }
                }
                if gone {
                    ensure!(got.is_err(), "step {step}: success although the session was removed meanwhile");
                    m.live.remove(&id);
                } else {
                    got.map_err(|e| format!("step {step}: verifying a response failed: {e:#}"))?;
                    m.live.get_mut(&id).unwrap()["status"] = outcome.status();
                }
            }
            Act::Remove(w) => {
                let id = m.id(w);
                let got = run!(store.remove_session(id));
                ensure_eq!(got.is_ok(), m.live.remove(&id).is_some(), "step {step}: removal of a session");
            }
            Act::Update(w, s) => {
                let id = m.id(w);
                let (s, j) = match s {
                    0 => (Status::SentRequest, "sent"),
                    1 => (Status::ReceivedResponse, "received"),
                    _ => (Status::SentRequestByReference, "by reference"),
                };
                let got = run!(store.update_status(id, s));
                ensure_eq!(got.is_ok(), m.live.contains_key(&id), "step {step}: update of a session");
                if let Some(x) = m.live.get_mut(&id) {
                    x["status"] = json!(j);
                }
            }
            Act::Get(w) => {
                let id = m.id(w);
                let got = run!(store.get_session(id));
                match (m.live.get(&id), got) {
                    (None, Ok(_)) => fail!("step {step}: a session that does not exist was found"),
                    (Some(_), Err(e)) => fail!("step {step}: a session was not found: {e:#}"),
                    (Some(s), Ok(g)) => ensure_eq!(session_json(&g), *s, "step {step}: session"),
                    _ => {}
                }
            }
        }
        // nothing else changed
        for id in &m.made {
            let got = run!(verifiers[step % 3].poll_status(*id)).ok().map(|s| status_json(&s));
            ensure_eq!(got, m.live.get(id).map(|s| s["status"].clone()), "after step {step} ({a:?}): status of session {id}");
            if p.acts.len() <= 8 || step + 1 == p.acts.len() {
                let got = run!(store.get_session(*id)).ok().map(|s| session_json(&s));
                ensure_eq!(got, m.live.get(id).cloned(), "after step {step} ({a:?}): session {id}");
            }
        }
    }
    obs.extra(p.acts.len() as u64);
    if verified > 0 && (fetched > 0 || m.made.len() > 1) {
        obs.nontrivial();
    }
    if verified > 0 {
        obs.label("with verified responses");
    }
    if fetched > 0 {
        obs.label("with retrieved requests");
    }
    if absent > 0 {
        obs.label("with absent sessions");
    }
    obs.label(if p.memory { "memory store" } else { "custom store" });
    Ok(())
}

/// Many sessions at once.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Crowd {
    n: u16,
    /// Distance between consecutive identifiers, in which part of them.
    step: u8,
    /// From which session, how many of them, what happens to them.
    picks: Vec<(u16, u8, u8)>,
    /// How many different signed requests there are.
    kinds: u16,
}

fn crowd(t: Tier) -> BoxedStrategy<Crowd> {
    let most = if t == Tier::Quick { 1200u16 } else { 12_000 };
    let sizes = match gen::new_size() {
        None => (60..most).boxed(),
        Some(n) => prop_oneof![1 => 60..most, 2 => n.prop_map(move |n| n.clamp(1, most as usize) as u16)].boxed(),
    };
    let pick = (any::<u16>(), prop_oneof![3 => Just(1u8), 1 => 1u8..40], 0u8..9);
    (prop_oneof![3 => 2u16..60, 1 => sizes], 0u8..4, gen::seq(pick, 1..30), prop_oneof![2 => Just(u16::MAX), 1 => 1u16..5]).prop_map(|(n, step, picks, kinds)| Crowd { n, step, picks, kinds }).boxed()
}

fn test_crowd(p: &Crowd, obs: &mut Obs) -> Check {
    use openid4vp::verifier::session::Outcome;
    let store = Arc::new(MemoryStore::default());
    let v = run!(Verifier::builder()
        .with_client(quick_client(1).client()?)
        .with_session_store(store.clone())
        .with_submission_endpoint(Url::parse("https://v.example/s").unwrap())
        .by_reference(Url::parse("https://v.example/r").unwrap())
        .build())
    .map_err(|e| format!("{e:#}"))?;
    let wm = metadata(json!({"client_id_prefixes_supported": ["decentralized_identifier"]}));
    let (first, _) = run!(quick_request(&v, 0, "crowd").build(wm)).map_err(|e| format!("{e:#}"))?;
    let template = run!(store.get_session(first)).map_err(|e| format!("{e:#}"))?;
    let id = |i: u16| Uuid::from_u128(1 + ((i as u128) << [0, 32, 64, 100][p.step as usize % 4]));
    let jwt = |i: u16| format!("{}.{}", template.authorization_request_jwt, i % p.kinds.max(1));
    let mut model: BTreeMap<Uuid, Option<Json>> = BTreeMap::from([(first, Some(json!("by reference")))]);
    let mut n = 0u16;
    let add = |i: u16, model: &mut BTreeMap<Uuid, Option<Json>>| -> Check {
        let mut s = template.clone();
        s.uuid = id(i);
        s.authorization_request_jwt = jwt(i);
        run!(store.initiate(s)).map_err(|e| format!("session {i}: {e:#}"))?;
        model.insert(id(i), Some(json!("by reference")));
        Ok(())
    };
    for _ in 0..p.n {
        add(n, &mut model)?;
        n += 1;
    }
    for (step, (i, count, op)) in p.picks.iter().enumerate() {
        for k in 0..*count as u16 {
            let i = i.wrapping_add(k) % n;
            let u = id(i);
            let known = model[&u].is_some();
            match op {
                0 | 1 => {
                    let got = run!(v.retrieve_authorization_request(u));
                    ensure_eq!(got.is_ok(), known, "step {step}: retrieving the request of session {i} of {n}");
                    if let Ok(j) = got {
                        ensure_eq!(j, jwt(i), "step {step}: request retrieved");
                        if model[&u] == Some(json!("by reference")) {
                            model.insert(u, Some(json!("sent")));
                        }
                    }
                }
                2 | 6 | 7 => {
                    let op = *op;
                    let outcome = move |u: Uuid| match op {
                        2 => Outcome::Failure { reason: u.to_string() },
                        6 => Outcome::Error { cause: u.to_string() },
                        _ => Outcome::Success { info: json!(u.to_string()) },
                    };
                    let got = run!(v.verify_response(u, Resp::Encrypted("x".into()).lib(), move |s, _| Box::pin(async move { outcome(s.uuid) })));
                    ensure_eq!(got.is_ok(), known, "step {step}: verifying a response to session {i} of {n}");
                    if known {
                        model.insert(u, Some(status_json(&Status::Complete(outcome(u)))));
                    }
                }
                3 => {
                    let got = run!(store.remove_session(u));
                    ensure_eq!(got.is_ok(), known, "step {step}: removing session {i} of {n}");
                    model.insert(u, None);
                }
                4 => {
                    let got = run!(store.update_status(u, Status::ReceivedResponse));
                    ensure_eq!(got.is_ok(), known, "step {step}: updating session {i} of {n}");
                    if known {
                        model.insert(u, Some(json!("received")));
                    }
                }
                8 if n < 60_000 => {
                    add(n, &mut model)?;
                    n += 1;
                }
                _ => {
                    let got = run!(v.poll_status(u)).ok().map(|s| status_json(&s));
                    ensure_eq!(got, model[&u], "step {step}: status of session {i} of {n}");
                }
            }
        }
    }
    for (u, s) in &model {
        let got = run!(v.poll_status(*u)).ok().map(|s| status_json(&s));
        ensure_eq!(got, *s, "in the end: status of session {u}, one of {n}");
    }
    obs.extra(n as u64 + p.picks.iter().map(|k| k.1 as u64).sum::<u64>());
    if n > 16 {
        obs.nontrivial();
    }
    if p.picks.iter().any(|k| k.2 == 8) {
        obs.label("sessions added later");
    }
    Ok(())
}

fn crowds() -> Vec<Crowd> {
    vec![Crowd { n: 12_000, step: 1, picks: vec![(0, 1, 1), (0, 1, 2), (11_999, 1, 1), (5, 1, 3), (5, 1, 5), (0, 40, 6), (0, 40, 8), (9, 1, 5)], kinds: u16::MAX }]
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        level: "exploration",
        assumptions: &["histories up to 24 (thorough: 60) operations, run one after another; a second verified response replaces the first outcome"],
        subs: vec![Box::new(SubCheck {
            name: "histories",
            rule: "a response was verified, and a request retrieved or another session present",
            quick: 8_000,
            thorough: 150_000,
            strat,
            examples: no_examples,
            test,
        }),
        Box::new(SubCheck {
            name: "crowds",
            rule: "more than 16 sessions at once",
            quick: 3_000,
            thorough: 8_000,
            strat: crowd,
            examples: crowds,
            test: test_crowd,
        })],
    }
}
