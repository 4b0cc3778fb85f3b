//! C01: what the verifier asks is exactly what an honest wallet accepts.
use std::sync::{Arc, Mutex};

use anyhow::Context as _;
use async_trait::async_trait;
use openid4vp::{
    core::{
        authorization_request::{AuthorizationRequest, RequestIndirection},
        util::AsyncHttpClient,
    },
    verifier::{session::{MemoryStore, SessionStore, Status}, Verifier},
    wallet::Wallet as _,
};
use proptest::prelude::*;

use crate::gen::{seq, vec};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};
use url::Url;

use super::rig::*;
use crate::{ensure, ensure_eq, fw::*, gen, kit::*, run};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    client: ClientPlan,
    by_reference: Option<String>,
    submission: String,
    endpoint: String,
    mode: u8,
    response_type: String,
    nonce: String,
    defaults: Vec<Param>,
    own: Vec<Param>,
    dcql: gen::DcqlPlan,
    /// 0: build, 1: build_with_session_id, 2: build_dc_api
    how: u8,
    more_algs: Vec<String>,
    more_prefixes: Vec<String>,
    trusted: bool,
    other_sessions: u8,
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    (
        (
            client_plan(),
            opt(0.5, base_url()),
            base_url(),
            gen::endpoint(),
            0u8..4,
            prop_oneof![4 => Just("vp_token".to_string()), 1 => Just("vp_token id_token".to_string()), 1 => gen::text()],
            gen::text(),
        ),
        (
            seq(prop_oneof![4 => free_param(), 1 => override_param()], 0..4),
            seq(prop_oneof![4 => free_param(), 1 => override_param()], 0..5),
            prop_oneof![3 => gen::small_dcql(), 1 => gen::dcql_plan()],
            prop_oneof![2 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
            vec(prop_oneof![Just("ES384".to_string()), Just("EdDSA".to_string()), gen::text()], 0..3),
            vec(prop_oneof![Just("x509_san_dns".to_string()), Just("pre-registered".to_string()), gen::ident()], 0..3),
            any::<bool>(),
            0u8..3,
        ),
    )
        .prop_map(
            |((client, by_reference, submission, endpoint, mode, response_type, nonce), (defaults, own, dcql, how, more_algs, more_prefixes, trusted, other_sessions))| Plan {
                client,
                by_reference,
                submission,
                endpoint,
                mode,
                response_type,
                nonce,
                defaults,
                own,
                dcql,
                how,
                more_algs,
                more_prefixes,
                trusted,
                other_sessions,
            },
        )
        .boxed()
}

/// Serves a verifier's requests by reference.
#[derive(Clone)]
struct Serve {
    verifier: Verifier,
    seen: Arc<Mutex<Vec<String>>>,
}

#[async_trait]
impl AsyncHttpClient for Serve {
    async fn execute(&self, r: http::Request<Vec<u8>>) -> anyhow::Result<http::Response<Vec<u8>>> {
        self.seen.lock().unwrap().push(r.uri().to_string());
        let u = Url::parse(&r.uri().to_string())?;
        let id = u.path_segments().and_then(|mut s| s.next_back()).context("no segment")?.parse()?;
        let jwt = self.verifier.retrieve_authorization_request(id).await?;
        Ok(http::Response::builder().status(200).body(jwt.into_bytes())?)
    }
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let store = MemoryStore::default();
    let mode = MODES[p.mode as usize % 4];
    let mut b = Verifier::builder()
        .with_client(p.client.client()?)
        .with_session_store(Arc::new(store.clone()))
        .with_submission_endpoint(Url::parse(&p.submission).unwrap());
    b = match &p.by_reference {
        Some(u) => b.by_reference(Url::parse(u).unwrap()),
        None => b.by_value(),
    };
    b = give_all(b, &p.defaults);
    let verifier = run!(b.build()).map_err(|e| format!("verifier refused: {e:#}"))?;

    // the parameters that decide validity come last, so that they are the ones that count
    let mut own = p.own.clone();
    own.push(param(1, json!(p.response_type), true));
    own.push(param(2, json!(mode), true));
    own.push(param(3, json!(p.nonce), true));
    if mode.ends_with(".jwt") {
        own.push(param(5, enc_client_metadata(p.client.key), true));
    }
    let request = || give_all(verifier.build_authorization_request(), &own).with_dcql_query(p.dcql.lib());

    let mut prefixes = p.more_prefixes.clone();
    prefixes.push(p.client.prefix().into());
    let mut algs = p.more_algs.clone();
    algs.push("ES256".into());
    let wallet_metadata = metadata_at(
        Url::parse(&p.endpoint).unwrap(),
        json!({"client_id_prefixes_supported": prefixes, "request_object_signing_alg_values_supported": algs}),
    );
    let seen = Arc::new(Mutex::new(vec![]));
    let wallet = LibWallet {
        metadata: wallet_metadata.clone(),
        http: Serve { verifier: verifier.clone(), seen: seen.clone() },
        resolver: p.client.resolver(),
        trusted_dids: p.trusted.then(|| vec!["did:example:other".to_string(), p.client.did.clone()]),
    };

    for _ in 0..p.other_sessions {
        run!(give_all(verifier.build_authorization_request(), &own)
            .with_request_parameter(Raw::<3>(json!("another session's nonce")))
            .with_dcql_query(p.dcql.lib())
            .build(wallet_metadata.clone()))
        .map_err(|e| format!("request refused: {e:#}"))?;
    }
    let direct = p.mode % 4 < 2;
    obs.nontrivial();
    obs.label(p.client.prefix());
    obs.label(mode);

    let (uuid, accepted) = match p.how {
        0 | 1 => {
            let (uuid, url) = if p.how == 0 {
                run!(request().build(wallet_metadata)).map_err(|e| format!("request refused: {e:#}"))?
            } else {
                let id = uuid::Uuid::from_u128(0x1234_5678_9abc);
                let url = run!(request().build_with_session_id(id, wallet_metadata)).map_err(|e| format!("request refused: {e:#}"))?;
                (id, url)
            };
            obs.label(if p.by_reference.is_some() { "by reference" } else { "by value" });
            let r = run!(wallet.validate_request(url.clone()));
            (uuid, r.map_err(|e| format!("the wallet refused the request {url}: {e:#}"))?)
        }
        _ => {
            obs.label("digital credentials API");
            let (uuid, jwt) = run!(request().build_dc_api()).map_err(|e| format!("request refused: {e:#}"))?;
            let r = AuthorizationRequest {
                client_id: p.trusted.then(|| p.client.id()),
                request_indirection: RequestIndirection::ByValue { request: jwt.clone() },
            };
            let r = run!(r.validate(&wallet));
            (uuid, r.map_err(|e| format!("the wallet refused the request object {jwt}: {e:#}"))?)
        }
    };
    let fetched = seen.lock().unwrap().len();
    ensure_eq!(fetched, usize::from(p.how < 2 && p.by_reference.is_some()), "number of fetches");

    let session = run!(store.get_session(uuid)).map_err(|e| format!("session: {e:#}"))?;
    let stored = serde_json::to_value(&session.authorization_request_object).map_err(|e| e.to_string())?;
    let got = serde_json::to_value(&accepted).map_err(|e| e.to_string())?;
    ensure_eq!(got, stored, "accepted request object against the session's");

    let mut want = merged(&p.defaults, &own, &p.client.id(), &p.dcql.json());
    let mut expected_uri = None;
    if direct {
        let u = got.get("response_uri").and_then(Json::as_str).and_then(|u| Url::parse(u).ok());
        let u = u.ok_or("the accepted request has no response address")?;
        ensure!(
            extends(&Url::parse(&p.submission).unwrap(), uuid, &u),
            "response address {u} is not the session's own below {}",
            p.submission
        );
        want.insert("response_uri".into(), got["response_uri"].clone());
        expected_uri = Some(u);
    }
    ensure_eq!(got, Json::Object(want), "accepted request object");
    // what the wallet reads off it
    ensure_eq!(accepted.client_id().map(|c| c.0.clone()), Some(p.client.id()), "client identifier");
    ensure_eq!(accepted.nonce().to_string(), p.nonce, "nonce");
    ensure_eq!(String::from(accepted.response_type().clone()), p.response_type, "response type");
    ensure_eq!(String::from(accepted.response_mode().clone()), mode, "response mode");
    if let Some(u) = expected_uri {
        ensure_eq!(accepted.return_uri().as_str(), u.as_str(), "response address");
    }
    let q = accepted.dcql_query().ok_or("no query")?.map_err(|e| format!("query: {e:#}"))?;
    ensure!(q == p.dcql.lib(), "another query: got {q:?}");
    ensure!(session.status == Status::SentRequest, "status after the wallet got the request: {:?}", session.status);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        level: "exploration",
        assumptions: &["P-256 signers with ES256; DIDs resolved from a table; verifier and wallet joined by an in-process stand-in for HTTP"],
        subs: vec![Box::new(SubCheck {
            name: "end to end",
            rule: "every case: a request is built, passed and validated",
            quick: 12_000,
            thorough: 300_000,
            strat,
            examples: no_examples,
            test,
        })],
    }
}
