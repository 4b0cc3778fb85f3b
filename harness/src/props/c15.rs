//! C15: a failing signer, session store or resolver never yields half a request.
use std::sync::{
    atomic::{AtomicU32, Ordering},
    Arc,
};

use anyhow::Result as AResult;
use async_trait::async_trait;
use openid4vp::{
    core::authorization_request::{parameters::{ClientId, ClientIdScheme}, AuthorizationRequestObject},
    verifier::{
        client::Client,
        request_signer::RequestSigner,
        Verifier,
    },
};
use p256::ecdsa::signature::Signer as _;
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};
use ssi_jwk::JWK;
use url::Url;
use uuid::Uuid;

use super::{
    c11::{self, Resp},
    rig::*,
};
use crate::{ensure, ensure_eq, fw::*, kit::*, run};

/// A signer some of whose operations (counted per kind) fail.
#[derive(Debug)]
struct FaultSigner {
    key: u8,
    fail_alg: Vec<u32>,
    fail_sign: Vec<u32>,
    algs: AtomicU32,
    signs: AtomicU32,
    fired: Arc<AtomicU32>,
    fault: Fault,
}

#[async_trait]
impl RequestSigner for FaultSigner {
    type Error = anyhow::Error;
    fn alg(&self) -> AResult<String> {
        let n = self.algs.fetch_add(1, Ordering::SeqCst);
        if self.fail_alg.contains(&n) {
            self.fired.fetch_add(1, Ordering::SeqCst);
            return Err(self.fault.error())
        }
        Ok("ES256".into())
    }
    fn jwk(&self) -> AResult<JWK> {
        Ok(public_jwk(self.key))
    }
    async fn sign(&self, payload: &[u8]) -> Vec<u8> {
        // cannot report a failure: an empty signature
        self.try_sign(payload).await.unwrap_or_default()
    }
    async fn try_sign(&self, payload: &[u8]) -> AResult<Vec<u8>> {
        let n = self.signs.fetch_add(1, Ordering::SeqCst);
        if self.fail_sign.contains(&n) {
            self.fired.fetch_add(1, Ordering::SeqCst);
            return Err(self.fault.error())
        }
        let s: p256::ecdsa::Signature = signing_key(self.key).sign(payload);
        Ok(s.to_vec())
    }
}

/// A client of the caller's own some of whose request objects fail.
#[derive(Debug)]
struct FaultClient {
    id: ClientId,
    fail: Vec<u32>,
    count: AtomicU32,
    fired: Arc<AtomicU32>,
    fault: Fault,
}

#[async_trait]
impl Client for FaultClient {
    fn id(&self) -> &ClientId {
        &self.id
    }
    fn prefix(&self) -> ClientIdScheme {
        ClientIdScheme("custom".into())
    }
    async fn generate_request_object_jwt(&self, body: &AuthorizationRequestObject) -> AResult<String> {
        let n = self.count.fetch_add(1, Ordering::SeqCst);
        if self.fail.contains(&n) {
            self.fired.fetch_add(1, Ordering::SeqCst);
            return Err(self.fault.error())
        }
        Ok(sign_jws(1, &json!({"alg": "ES256", "typ": TYP}), &serde_json::to_value(body)?))
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Act {
    /// mode, how, index of the wallet metadata, further parameters
    Build(u8, u8, u8, Vec<Param>),
    Retrieve(u8),
    Poll(u8),
    Verify(u8, OutcomePlan, Resp),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    /// 0-2: the library's clients, 3: the caller's own
    kind: u8,
    by_reference: bool,
    fail_alg: Vec<u32>,
    fail_sign: Vec<u32>,
    fail_client: Vec<u32>,
    fail_store: Vec<(Op, u32)>,
    /// what the failures of the signer or client, and of the store, look like
    faults: (Fault, Fault),
    acts: Vec<Act>,
}

fn strat(t: Tier) -> BoxedStrategy<Plan> {
    let n = if t == Tier::Quick { 14 } else { 40 };
    (
        0u8..4,
        any::<bool>(),
        vec(0u32..5, 0..2),
        vec(0u32..5, 0..2),
        vec(0u32..5, 0..2),
        vec(
            prop_oneof![
                1 => (0u32..5).prop_map(|n| (Op::Initiate, n)),
                1 => (0u32..5).prop_map(|n| (Op::Update, n)),
                2 => (0u32..12).prop_map(|n| (Op::Get, n)),
            ],
            0..4,
        ),
        (fault(), fault()),
        vec(
            prop_oneof![
                3 => (0u8..4, 0u8..3, prop_oneof![8 => Just(0u8), 1 => 1u8..6], vec(free_param(), 0..3))
                    .prop_map(|(m, h, w, x)| Act::Build(m, h, w, x)),
                2 => any::<u8>().prop_map(Act::Retrieve),
                1 => any::<u8>().prop_map(Act::Poll),
                2 => (any::<u8>(), outcome_plan(), prop_oneof![1 => Just(Resp::Encrypted("x".into())), 2 => c11::resp()]).prop_map(|(i, o, r)| Act::Verify(i, o, r)),
            ],
            1..n,
        ),
    )
        .prop_map(|(kind, by_reference, fail_alg, fail_sign, fail_client, fail_store, faults, acts)| Plan {
            kind,
            by_reference,
            fail_alg,
            fail_sign,
            fail_client,
            fail_store,
            faults,
            acts,
        })
        .boxed()
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let fired = Arc::new(AtomicU32::new(0));
    let (client, prefix): (Arc<dyn Client + Send + Sync>, &str) = if p.kind % 4 == 3 {
        (
            Arc::new(FaultClient { id: ClientId("custom:me".into()), fail: p.fail_client.clone(), count: AtomicU32::new(0), fired: fired.clone(), fault: p.faults.0.clone() }),
            "custom",
        )
    } else {
        let mut c = quick_client(1);
        c.kind = p.kind % 4;
        let prefix = c.prefix();
        (
            c.client_with(Arc::new(FaultSigner {
                key: 1,
                fail_alg: p.fail_alg.clone(),
                fail_sign: p.fail_sign.clone(),
                algs: AtomicU32::new(0),
                signs: AtomicU32::new(0),
                fired: fired.clone(),
                fault: p.faults.0.clone(),
            }))?,
            prefix,
        )
    };
    let id = client.id().0.clone();
    let store = Arc::new(SpyStore::default());
    *store.fail.lock().unwrap() = p.fail_store.clone();
    *store.fault.lock().unwrap() = p.faults.1.clone();
    let mut b = Verifier::builder()
        .with_client(client)
        .with_session_store(store.clone())
        .with_submission_endpoint(Url::parse("https://v.example/s").unwrap());
    if p.by_reference {
        b = b.by_reference(Url::parse("https://v.example/r").unwrap());
    }
    let v = run!(b.build()).map_err(|e| format!("{e:#}"))?;
    let total = || fired.load(Ordering::SeqCst) + store.fired.load(Ordering::SeqCst);
    let dump = || -> Vec<Json> { store.sessions.lock().unwrap().values().map(session_json).collect() };
    let mut made: Vec<Uuid> = vec![];
    let mut faults = 0;

    for (step, a) in p.acts.iter().enumerate() {
        let before = total();
        let old = dump();
        let pick = |n: u8| if made.is_empty() { Uuid::from_u128(9) } else { made[n as usize % made.len()] };
        match a {
            Act::Build(mode, how, w, more) => {
                let wm = match w {
                    0 => json!({"client_id_prefixes_supported": [prefix]}),
                    1 => json!({"client_id_prefixes_supported": "x"}),
                    2 => json!({"client_id_prefixes_supported": [1]}),
                    3 => json!({"client_id_prefixes_supported": []}),
                    4 => json!({"client_id_prefixes_supported": null}),
                    _ => json!({}),
                };
                let r = give_all(quick_request(&v, *mode, &step.to_string()), more);
                let given: AResult<(Uuid, String)> = match how {
                    0 => run!(r.build(metadata(wm))).map(|(i, u)| (i, u.to_string())),
                    1 => {
                        let i = Uuid::from_u128(step as u128 + 100);
                        run!(r.build_with_session_id(i, metadata(wm))).map(|u| (i, u.to_string()))
                    }
                    _ => run!(r.build_dc_api()),
                };
                let fault = total() > before;
                let bad_wallet = *w > 0 && *how < 2;
                match given {
                    Err(e) => {
                        ensure!(fault || bad_wallet, "step {step}: building failed without a fault: {e:#}");
                        ensure_eq!(dump(), old, "step {step}: sessions after a request that failed");
                    }
                    Ok((i, text)) => {
                        ensure!(!fault, "step {step}: a request was handed out although a step of building it failed: {text}");
                        ensure!(!bad_wallet, "step {step}: a request was handed out for a wallet that cannot take it: {text}");
                        let s = store.sessions.lock().unwrap().get(&i).cloned();
                        let s = s.ok_or_else(|| format!("step {step}: a request was handed out without a session"))?;
                        ensure_eq!(dump().len(), old.len() + 1, "step {step}: number of sessions");
                        ensure!(
                            verify_jws(signing_key(1).verifying_key(), &s.authorization_request_jwt),
                            "step {step}: the request handed out is not signed"
                        );
                        ensure_eq!(s.authorization_request_object.client_id().map(|c| c.0.clone()), Some(id.clone()), "step {step}: client");
                        made.push(i);
                    }
                }
            }
            Act::Retrieve(n) => {
                let i = pick(*n);
                let known = made.contains(&i);
                let got = run!(v.retrieve_authorization_request(i));
                let fault = total() > before;
                ensure_eq!(got.is_ok(), known && !fault, "step {step}: retrieved (session exists: {known}, a store operation failed: {fault})");
                let now = dump();
                for (x, y) in old.iter().zip(&now) {
                    let mut y = y.clone();
                    if y["uuid"] == json!(i) && rank(&x["status"]) == 0 {
                        if got.is_ok() {
                            ensure_eq!(y["status"], json!("sent"), "step {step}: status after retrieval");
                        }
                        y["status"] = x["status"].clone();
                    }
                    ensure_eq!(y, *x, "step {step}: session after retrieval");
                }
            }
            Act::Poll(n) => {
                let i = pick(*n);
                let known = made.contains(&i);
                let got = run!(v.poll_status(i));
                let fault = total() > before;
                ensure_eq!(got.is_ok(), known && !fault, "step {step}: polled (session exists: {known}, a store operation failed: {fault})");
                ensure_eq!(dump(), old, "step {step}: sessions after polling");
            }
            Act::Verify(n, o, r) => {
                let i = pick(*n);
                let known = made.contains(&i);
                let runs = Arc::new(AtomicU32::new(0));
                let at_validator = Arc::new(AtomicU32::new(0));
                let got = {
                    let (runs, at_validator, fired, store) = (runs.clone(), at_validator.clone(), fired.clone(), store.clone());
                    let o = o.lib();
                    run!(v.verify_response(i, r.lib(), move |_, _| {
                        runs.fetch_add(1, Ordering::SeqCst);
                        at_validator.store(fired.load(Ordering::SeqCst) + store.fired.load(Ordering::SeqCst), Ordering::SeqCst);
                        Box::pin(async move { o })
                    }))
                };
                let fault = total() > before;
                ensure_eq!(got.is_ok(), known && !fault, "step {step}: verified (session exists: {known}, a store operation failed: {fault})");
                let runs = runs.load(Ordering::SeqCst);
                ensure!(runs <= 1, "step {step}: the validator was run {runs} times");
                if runs == 1 {
                    ensure!(known, "step {step}: the validator was run without a session");
                    ensure!(at_validator.load(Ordering::SeqCst) == before, "step {step}: the validator was run on a session that could not be read");
                }
                let now = dump();
                for (x, y) in old.iter().zip(&now) {
                    let mut y = y.clone();
                    if y["uuid"] == json!(i) && got.is_ok() {
                        ensure_eq!(y["status"], o.status(), "step {step}: status after verification");
                        y["status"] = x["status"].clone();
                    }
                    ensure_eq!(y, *x, "step {step}: session after verification");
                }
            }
        }
        if total() > before {
            faults += 1;
        }
    }
    obs.extra(p.acts.len() as u64);
    if faults > 0 {
        obs.nontrivial();
        obs.label("with faults");
    }
    obs.label(match p.kind % 4 {
        0 => "DID client",
        1 => "DNS name client",
        2 => "hash client",
        _ => "custom client",
    });
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        level: "exploration",
        assumptions: &["faults are errors returned by the signer, the client or the store, at chosen operations; a failed store operation has no effect"],
        subs: vec![Box::new(SubCheck {
            name: "faults",
            rule: "at least one injected failure happened",
            quick: 16_000,
            thorough: 300_000,
            strat,
            examples: no_examples,
            test,
        })],
    }
}
