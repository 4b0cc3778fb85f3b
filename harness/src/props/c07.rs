//! C07: each client identifier prefix reaches its own verification, and only that.
use async_trait::async_trait;
use openid4vp::{
    core::{
        authorization_request::{
            verification::RequestVerifier, AuthorizationRequest, AuthorizationRequestObject, RequestIndirection,
        },
        metadata::WalletMetadata,
    },
    wallet::Wallet,
};
use proptest::{option, prelude::*, sample::select};

use crate::gen::vec;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};

use crate::{ensure, ensure_eq, fw::*, gen, kit::*, run};

const KNOWN: [(&str, &str); 6] = [
    ("decentralized_identifier", "decentralized_identifier"),
    ("openid_federation", "openid_federation"),
    ("redirect_uri", "redirect_uri"),
    ("verifier_attestation", "verifier_attestation"),
    ("x509_san_dns", "x509_san_dns"),
    ("x509_hash", "x509_hash"),
];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    client_id: Option<String>,
    /// What the wallet lists besides (or instead of) the prefix itself; None: no list.
    listed: Option<Vec<String>>,
    list_own: bool,
    /// What the wallet has instead of a list of strings.
    bad_list: Option<Json>,
    accept: bool,
    signed: bool,
    /// The wallet has no verification (0), or only one of them (1 to 8, see [only]).
    #[serde(default)]
    only: Option<u8>,
    /// Near misses of the prefix that the wallet lists.
    #[serde(default)]
    near: Vec<gen::Twist>,
    /// The signature of the request object: 0 good, 1 empty, 2 of something else.
    #[serde(default)]
    signature: u8,
    extra: Map<String, Json>,
    mode: u8,
    #[serde(default)]
    nonce: Option<String>,
}

fn prefix() -> BoxedStrategy<String> {
    prop_oneof![
        8 => select(KNOWN.iter().map(|k| k.0).collect::<Vec<_>>()).prop_map(String::from),
        2 => Just("origin".to_string()),
        2 => select(vec!["pre-registered", "preregistered", "https", "did", "X509_hash", "x509_hash ", " x509_hash", "x509", "x509_san_uri", "entity_id", "web-origin", "other", "", "openid_federation2", "Origin"]).prop_map(String::from),
        2 => gen::near(&["decentralized_identifier", "openid_federation", "redirect_uri", "verifier_attestation", "x509_san_dns", "x509_hash", "origin", "pre-registered"]).prop_map(|t| t.replace(':', "")),
        1 => (select(KNOWN.iter().map(|k| k.0).collect::<Vec<_>>()), gen::twist()).prop_map(|(p, t)| t.apply(p).replace(':', "")),
        1 => gen::text().prop_map(|t| t.replace(':', "")),
    ]
    .boxed()
}

/// JSON that is not a list of strings.
fn bad_list() -> BoxedStrategy<Json> {
    let known = || select(vec!["pre-registered", "x509_hash", "x509_san_dns", "redirect_uri"]);
    prop_oneof![
        known().prop_map(|k| json!(k)),
        known().prop_map(|k| json!({ k: true })),
        known().prop_map(|k| json!({ "0": k })),
        (vec(prefix(), 0..3), prop_oneof![Just(json!(null)), Just(json!(1)), Just(json!({})), known().prop_map(|k| json!([k]))], any::<u8>()).prop_map(|(v, j, at)| {
            let mut v: Vec<Json> = v.into_iter().map(Json::from).collect();
            v.insert(at as usize % (v.len() + 1), j);
            json!(v)
        }),
        select(vec![json!(null), json!(0), json!(true), json!("")]),
    ]
    .boxed()
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    (
        option::weighted(
            0.95,
            prop_oneof![
                8 => (prefix(), prop_oneof![2 => gen::text(), 1 => prefix().prop_map(|p| format!("{p}:x")), 1 => gen::http_url(), 1 => gen::http_url().prop_map(|u| format!("//{u}"))]).prop_map(|(p, t)| format!("{p}:{t}")),
                2 => gen::text().prop_map(|t| t.replace(':', "")),
                1 => prefix(),
                1 => gen::http_url(),
                1 => select(vec!["redirect_uri:https://verifier.example/r", "redirect_uri:https://verifier.example/", "redirect_uri:https://verifier.example", "x509_san_dns:verifier.example", ":", ":x", "pre-registered:verifier.example"]).prop_map(String::from),
                2 => (prefix(), gen::text(), gen::twist()).prop_map(|(p, t, w)| w.apply(&format!("{p}:{t}"))),
                1 => (prefix(), select(vec!["%3A", "%3a", "：", " :", ";", "/", "=", "|", "."]), gen::text()).prop_map(|(p, s, t)| format!("{p}{s}{t}")),
            ],
        ),
        option::weighted(0.85, vec(prefix(), 0..4)),
        prop::bool::weighted(0.8),
        option::weighted(0.08, bad_list()),
        prop::bool::weighted(0.8),
        any::<bool>(),
        (option::weighted(0.2, 0u8..9), prop_oneof![4 => Just(vec![]), 1 => vec(gen::twist(), 1..4)], prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)]),
        gen::bystanders(),
        (0u8..2, option::weighted(0.3, gen::text())),
    )
        .prop_map(|(client_id, listed, list_own, bad_list, accept, signed, (only, near, signature), extra, (mode, nonce))| Plan {
            client_id,
            listed,
            list_own,
            bad_list,
            accept,
            signed,
            only,
            near,
            signature,
            extra,
            mode,
            nonce,
        })
        .boxed()
}

/// A wallet that provides one verification only.
macro_rules! partial {
    ($name:ident, $($f:tt)*) => {
        struct $name(RecordingWallet<MockHttp>);
        #[async_trait]
        impl RequestVerifier for $name {
            $($f)*
        }
        impl Wallet for $name {
            type HttpClient = MockHttp;
            fn metadata(&self) -> &WalletMetadata {
                self.0.metadata()
            }
            fn http_client(&self) -> &MockHttp {
                self.0.http_client()
            }
        }
    };
}

type Verdict = Result<(), anyhow::Error>;

partial!(Bare,);
partial!(OnlyDid, async fn decentralized_identifier(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Verdict { self.0.decentralized_identifier(r, j).await });
partial!(OnlyFederation, async fn openid_federation(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Verdict { self.0.openid_federation(r, j).await });
partial!(OnlyPreregistered, async fn preregistered(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Verdict { self.0.preregistered(r, j).await });
partial!(OnlyRedirect, async fn redirect_uri(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Verdict { self.0.redirect_uri(r, j).await });
partial!(OnlyAttestation, async fn verifier_attestation(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Verdict { self.0.verifier_attestation(r, j).await });
partial!(OnlyDns, async fn x509_san_dns(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Verdict { self.0.x509_san_dns(r, j).await });
partial!(OnlyHash, async fn x509_hash(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Verdict { self.0.x509_hash(r, j).await });
partial!(OnlyOther, async fn other(&self, p: &str, r: &AuthorizationRequestObject, j: Option<String>) -> Verdict { self.0.other(p, r, j).await });

const ONLY: [&str; 9] = ["", "decentralized_identifier", "openid_federation", "preregistered", "redirect_uri", "verifier_attestation", "x509_san_dns", "x509_hash", "other"];

/// What a wallet that provides only the `k`-th verification says.
fn only(k: u8, w: RecordingWallet<MockHttp>, req: AuthorizationRequest) -> Result<(anyhow::Result<AuthorizationRequestObject>, Vec<Call>), Fail> {
    macro_rules! go {
        ($t:ident) => {{
            let w = $t(w);
            let r = run!(req.validate(&w));
            let seen = w.0.seen();
            (r, seen)
        }};
    }
    Ok(match k {
        0 => go!(Bare),
        1 => go!(OnlyDid),
        2 => go!(OnlyFederation),
        3 => go!(OnlyPreregistered),
        4 => go!(OnlyRedirect),
        5 => go!(OnlyAttestation),
        6 => go!(OnlyDns),
        7 => go!(OnlyHash),
        _ => go!(OnlyOther),
    })
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let prefix = p
        .client_id
        .as_ref()
        .and_then(|c| c.split_once(':'))
        .map(|x| x.0.to_string());
    let mut meta = json!({});
    let mut listed = p.listed.clone();
    if let (Some(l), Some(x), true) = (&mut listed, &prefix, p.list_own) {
        l.push(x.clone());
    }
    if let (Some(l), Some(x)) = (&mut listed, &prefix) {
        l.extend(p.near.iter().map(|t| t.apply(x)));
    }
    if let Some(l) = &listed {
        meta["client_id_prefixes_supported"] = json!(l);
    }
    if let Some(j) = &p.bad_list {
        let mut j = j.clone();
        if let (Some(l), Some(x), true) = (j.as_array_mut(), &prefix, p.list_own) {
            l.push(json!(x));
        }
        meta["client_id_prefixes_supported"] = j;
    }
    let mut payload = p.extra.clone();
    if let Some(c) = &p.client_id {
        payload.insert("client_id".into(), json!(c));
    }
    payload.insert("response_type".into(), json!("vp_token"));
    payload.insert("nonce".into(), json!(p.nonce.as_deref().unwrap_or("n")));
    if p.mode == 0 {
        payload.insert("response_mode".into(), json!("direct_post"));
        payload.insert("response_uri".into(), json!("https://verifier.example/r"));
    } else {
        payload.insert("response_mode".into(), json!("dc_api"));
    }
    let payload = Json::Object(payload);
    let mut jwt = sign_jws(1, &json!({"alg": "ES256", "typ": TYP}), &payload);
    if p.signature > 0 {
        jwt.truncate(jwt.rfind('.').unwrap() + 1);
    }
    if p.signature > 1 {
        jwt += &b64u(raw_sign(1, b"something else"));
    }
    let req = AuthorizationRequest {
        client_id: p.client_id.clone(),
        request_indirection: if p.signed {
            RequestIndirection::ByValue { request: jwt.clone() }
        } else {
            RequestIndirection::Direct(uo(payload.clone()))
        },
    };
    let supported = match (&prefix, &listed) {
        (None, _) => true,
        (Some(_), _) if p.bad_list.is_some() => false,
        (Some(x), None) => x == "pre-registered",
        (Some(x), Some(l)) => l.contains(x),
    };
    let run_it = supported && prefix.as_deref() != Some("origin");
    let (method, other) = match &prefix {
        None => ("preregistered", None),
        Some(x) => match KNOWN.iter().find(|k| k.0 == x) {
            Some(k) => (k.1, None),
            None => ("other", Some(x.clone())),
        },
    };
    let w = RecordingWallet::new(metadata(meta), MockHttp::none(), p.accept);
    let (got, calls) = match p.only {
        None => {
            let got = run!(req.validate(&w));
            let seen = w.seen();
            (got, seen)
        }
        Some(k) => {
            let (got, calls) = only(k, w, req)?;
            if run_it && ONLY[k as usize % 9] != method {
                obs.nontrivial();
                obs.label("verification not provided");
                ensure!(calls.is_empty(), "a wallet without a verification for {:?} used another: {calls:?}", p.client_id);
                ensure!(got.is_err(), "a wallet that provides no verification for {:?} accepted the request", p.client_id);
                return Ok(());
            }
            obs.label("a single verification");
            (got, calls)
        }
    };
    let err = got.as_ref().err().map(|e| format!("{e:#}"));
    if !run_it {
        obs.nontrivial();
        obs.label(if p.bad_list.is_some() { "refused: malformed list" } else if supported { "refused: origin" } else { "refused: prefix not listed" });
        ensure!(calls.is_empty(), "verifications ran for an unsupported client {:?}: {calls:?}", p.client_id);
        ensure!(got.is_err(), "the request of an unsupported client {:?} was accepted", p.client_id);
        return Ok(());
    }
    obs.nontrivial();
    obs.label(method);
    ensure_eq!(calls.len(), 1, "number of verifications for {:?} ({err:?})", p.client_id);
    ensure_eq!(calls[0].method, method, "verification run for {:?}", p.client_id);
    ensure_eq!(calls[0].prefix, other, "prefix given to the extension verification");
    ensure_eq!(calls[0].request, payload, "request given to the verification");
    ensure_eq!(calls[0].jwt, p.signed.then(|| jwt.clone()), "signed request given to the verification");
    ensure_eq!(got.is_ok(), p.accept, "verdict ({err:?})");
    if let Ok(r) = got {
        ensure_eq!(serde_json::to_value(r).unwrap(), payload, "accepted request");
    }
    Ok(())
}

fn examples() -> Vec<Plan> {
    let mut v = vec![];
    for x in KNOWN.iter().map(|k| k.0).chain(["origin", "pre-registered", "x"]) {
        for own in [true, false] {
            for accept in [true, false] {
                for signed in [true, false] {
                    v.push(Plan {
                        client_id: Some(format!("{x}:a")),
                        listed: Some(vec![]),
                        list_own: own,
                        bad_list: None,
                        accept,
                        signed,
                        only: None,
                        near: vec![],
                        signature: 0,
                        extra: Map::new(),
                        mode: 0, nonce: None,
                    });
                }
            }
        }
    }
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        level: "exploration",
        assumptions: &["wallets whose verifications are stand-ins that record what they are given"],
        subs: vec![Box::new(SubCheck {
            name: "dispatch",
            rule: "one verification was to run, or the prefix was to be refused",
            quick: 40_000,
            thorough: 1_000_000,
            strat,
            examples,
            test,
        })],
    }
}
