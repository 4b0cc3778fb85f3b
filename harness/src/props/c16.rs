//! C16: requests carry the caller's parameters, and always the verifier's own identity.
use std::sync::Arc;

use openid4vp::{
    core::authorization_request::{AuthorizationRequest, RequestIndirection},
    verifier::{session::Status, Verifier},
};
use proptest::{option, prelude::*, sample::select};

use crate::gen::{seq, vec};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};
use url::Url;
use uuid::Uuid;

use super::rig::*;
use crate::{ensure, ensure_eq, fail, fw::*, gen, kit::*, run};

/// All identifiers of sessions given out in this process.
static EVER: std::sync::Mutex<Option<std::collections::HashSet<uuid::Uuid>>> = std::sync::Mutex::new(None);

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    client: ClientPlan,
    by_reference: Option<String>,
    submission: String,
    endpoint: String,
    defaults: Vec<Param>,
    own: Vec<Param>,
    dcql: Option<gen::DcqlPlan>,
    earlier_dcql: Option<gen::DcqlPlan>,
    prefixes: Option<Vec<String>>,
    /// 0: build, 1: build_with_session_id, 2: build_dc_api
    how: u8,
    id: u64,
}

/// Parameters that decide validity, mostly well-formed.
fn key_params() -> BoxedStrategy<Vec<Param>> {
    let rt = prop_oneof![
        8 => select(vec!["vp_token", "vp_token id_token"]).prop_map(|s| Some(json!(s))),
        1 => gen::text().prop_map(|s| Some(json!(s))),
        1 => gen::json_value().prop_map(Some),
        1 => Just(None),
    ];
    let mode = prop_oneof![
        20 => select(MODES.to_vec()).prop_map(|s| Some(json!(s))),
        1 => select(vec!["query", "fragment", "form_post", "direct_post.jwt ", "Direct_post", "dc_api.jws", ""]).prop_map(|s| Some(json!(s))),
        1 => gen::json_value().prop_map(Some),
        1 => Just(None),
    ];
    let nonce = prop_oneof![
        12 => gen::text().prop_map(|s| Some(json!(s))),
        1 => gen::json_value().prop_map(Some),
        1 => Just(None),
    ];
    let uri = prop_oneof![
        12 => Just(None),
        1 => gen::http_url().prop_map(|u| Some((7u8, json!(u)))),
        2 => gen::http_url().prop_map(|u| Some((8u8, json!(u)))),
        1 => (7u8..9, gen::json_scalar()).prop_map(Some),
    ];
    (rt, mode, nonce, uri, any::<[bool; 4]>(), any::<u8>())
        .prop_map(|(rt, mode, nonce, uri, t, rot)| {
            let mut v = vec![];
            v.extend(rt.map(|j| param(1, j, t[0])));
            v.extend(mode.map(|j| param(2, j, t[1])));
            v.extend(nonce.map(|j| param(3, j, t[2])));
            v.extend(uri.map(|(k, j)| param(k, j, t[3])));
            if !v.is_empty() {
                let n = v.len();
                v.rotate_left(rot as usize % n);
            }
            v
        })
        .boxed()
}

fn any_param() -> BoxedStrategy<Param> {
    prop_oneof![4 => free_param(), 2 => override_param(), 1 => (1u8..4, gen::text(), any::<bool>()).prop_map(|(k, s, t)| param(k, json!(s), t))].boxed()
}

/// An address made of the name in a client identifier.
fn base_of(id: &str) -> Option<String> {
    let (_, name) = id.split_once(':')?;
    Url::parse(&format!("https://{name}/")).ok().filter(|u| u.query().is_none() && u.fragment().is_none()).map(|u| u.to_string())
}

/// A base address with a fragment.
fn fragment() -> BoxedStrategy<String> {
    (base_url(), gen::text()).prop_map(|(u, f)| {
        let mut u = Url::parse(&u).unwrap();
        u.set_fragment(Some(&f));
        u.to_string()
    }).boxed()
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    (
        (
            client_plan(),
            opt(0.5, prop_oneof![15 => base_url(), 1 => fragment(), 1 => Just("mailto:x".to_string())].boxed()),
            prop_oneof![25 => base_url(), 1 => fragment(), 1 => Just("data:x".to_string())],
            gen::endpoint(),
            // the deciding parameters as defaults or per request, in front of others or behind
            (seq(any_param(), 0..3), key_params(), seq(free_param(), 0..3), any::<bool>()),
            (seq(any_param(), 0..2), key_params(), seq(prop_oneof![free_param(), override_param()], 0..3), 0u8..4),
        ),
        (
            opt(0.95, prop_oneof![4 => gen::small_dcql(), 1 => gen::dcql_plan()].boxed()),
            opt(0.2, gen::small_dcql()),
            prop_oneof![
                1 => Just(None),
                20 => vec(prop_oneof![6 => select(PREFIXES.to_vec()).prop_map(String::from), 1 => gen::ident()], 1..7).prop_map(Some),
                // very many
                1 => (gen::many(), any::<u16>(), select(PREFIXES.to_vec())).prop_map(|(n, i, s)| {
                    let mut v: Vec<String> = (0..=n).map(|i| format!("p{i}")).collect();
                    v.insert(if i % 2 == 0 { n + 1 } else { i as usize % (n + 2) }, s.into());
                    Some(v)
                }),
                // others than those there are, however close
                2 => vec(prop_oneof![1 => select(vec!["", "*", " ", ":", "x509", "did", "any", "x509_hash:", "pre-registered"]).prop_map(String::from), 2 => (select(PREFIXES.to_vec()), gen::twist()).prop_map(|(p, t)| t.apply(p)), 1 => gen::text()], 0..5).prop_map(Some),
            ],
            prop_oneof![4 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8)],
            any::<u64>(),
            // a client identifier close to the verifier's own
            option::weighted(0.15, (gen::twist(), any::<bool>(), any::<bool>())),
            prop_oneof![3 => Just(0u8), 1 => 1u8..9],
        ),
    )
        .prop_map(|((client, by_reference, submission, endpoint, d, o), (dcql, earlier_dcql, prefixes, how, id, close, same))| {
            let (mut by_reference, mut submission, mut earlier_dcql) = (by_reference, submission, earlier_dcql);
            let mut defaults = d.0;
            if d.3 || o.3 == 0 {
                defaults.extend(d.1);
            }
            defaults.extend(d.2);
            let mut own = o.0;
            if o.3 > 0 {
                own.extend(o.1);
            }
            own.extend(o.2);
            if let Some((t, default, typed)) = close {
                let c = param(0, json!(t.apply(&client.id())), typed);
                if default { defaults.push(c) } else { own.push(c) }
            }
            // values that coincide
            match same {
                1 => by_reference = by_reference.map(|_| submission.clone()),
                2 => earlier_dcql = dcql.clone(),
                3 => submission = base_of(&client.id()).unwrap_or(submission),
                4..=8 => {
                    let v = match same {
                        4 => client.id(),
                        5 => submission.clone(),
                        6 => endpoint.clone(),
                        7 => by_reference.clone().unwrap_or_default(),
                        _ => client.id().split_once(':').map(|(_, s)| s.to_string()).unwrap_or_default(),
                    };
                    let list = if id % 2 == 0 { &mut defaults } else { &mut own };
                    list.push(param(if id % 4 < 2 { 3 } else { 4 }, json!(v), id % 8 < 4));
                }
                _ => {}
            }
            Plan { client, by_reference, submission, endpoint, defaults, own, dcql, earlier_dcql, prefixes, how, id }
        })
        .boxed()
}

/// Why the request must be refused, read off the property.
fn refusal(p: &Plan, m: &Map<String, Json>) -> Option<&'static str> {
    if p.dcql.is_none() {
        return Some("no query");
    }
    if !m.get("response_type").is_some_and(Json::is_string) {
        return Some("no response type");
    }
    let Some(mode) = m.get("response_mode").and_then(Json::as_str) else {
        return Some("no response mode");
    };
    if !MODES.contains(&mode) {
        return Some("unsupported response mode");
    }
    if !m.get("nonce").is_some_and(Json::is_string) {
        return Some("no nonce");
    }
    let direct = mode.starts_with("direct_post");
    if m.contains_key("redirect_uri") {
        return Some("redirect address");
    }
    if !direct && m.contains_key("response_uri") {
        return Some("response address in a digital-credentials mode");
    }
    if direct && Url::parse(&p.submission).unwrap().cannot_be_a_base() {
        return Some("submission endpoint cannot be extended");
    }
    if p.how < 2 {
        if !p.prefixes.as_ref().is_some_and(|v| v.iter().any(|x| x == p.client.prefix())) {
            return Some("kind of client not supported by the wallet");
        }
        if p.by_reference.as_ref().is_some_and(|u| Url::parse(u).unwrap().cannot_be_a_base()) {
            return Some("reference base cannot be extended");
        }
    }
    None
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let store = Arc::new(SpyStore::default());
    let mut b = Verifier::builder();
    // the order of the builder's calls does not matter, and the last call counts
    if p.id % 2 == 0 {
        b = give_all(b, &p.defaults);
    }
    if p.id % 3 == 0 {
        b = b.by_reference(Url::parse("https://old.example/x").unwrap());
    }
    b = match &p.by_reference {
        Some(u) => b.by_reference(Url::parse(u).unwrap()),
        None => b.by_value(),
    };
    if p.id % 5 == 0 {
        let other = Arc::new(SpyStore::default());
        *other.fail.lock().unwrap() = vec![(Op::Initiate, 0)];
        b = b.with_client(quick_client(3).client()?).with_session_store(other).with_submission_endpoint(Url::parse("https://old.example/y").unwrap());
    }
    b = b.with_client(p.client.client()?).with_session_store(store.clone()).with_submission_endpoint(Url::parse(&p.submission).unwrap());
    if p.id % 2 == 1 {
        b = give_all(b, &p.defaults);
    }
    let verifier = run!(b.build()).map_err(|e| format!("verifier refused: {e:#}"))?;
    let mut r = verifier.build_authorization_request();
    if let Some(d) = &p.earlier_dcql {
        if p.dcql.is_some() {
            r = r.with_dcql_query(d.lib());
        }
    }
    r = give_all(r, &p.own);
    if let Some(d) = &p.dcql {
        r = r.with_dcql_query(d.lib());
    }
    let query = p.dcql.as_ref().map(|d| d.json()).unwrap_or(Json::Null);
    let mut want = merged(&p.defaults, &p.own, &p.client.id(), &query);
    let refusal = refusal(p, &want);

    let mut wm = json!({});
    if let Some(v) = &p.prefixes {
        wm["client_id_prefixes_supported"] = json!(v);
    }
    let wm = metadata_at(Url::parse(&p.endpoint).unwrap(), wm);
    let mut url = None;
    let mut jwt = None;
    let res = match p.how {
        0 => run!(r.build(wm)).map(|(id, u)| {
            url = Some(u);
            id
        }),
        1 => {
            let id = Uuid::from_u128(p.id as u128);
            run!(r.build_with_session_id(id, wm)).map(|u| {
                url = Some(u);
                id
            })
        }
        _ => run!(r.build_dc_api()).map(|(id, j)| {
            jwt = Some(j);
            id
        }),
    };
    let sessions = store.sessions.lock().unwrap().clone();
    obs.nontrivial();
    let uuid = match (res, refusal) {
        (Err(_), Some(why)) => {
            obs.label(why);
            ensure!(sessions.is_empty(), "a session was stored for a refused request");
            return Ok(());
        }
        (Err(e), None) => fail!("a request that has everything was refused: {e:#}"),
        (Ok(_), Some(why)) => fail!("a request was built in spite of: {why}"),
        (Ok(id), None) => id,
    };
    obs.label("built");
    ensure_eq!(sessions.len(), 1, "number of sessions");
    let s = sessions.get(&uuid).ok_or("no session under the identifier returned")?;
    ensure_eq!(s.uuid, uuid, "identifier in the session");
    let got = serde_json::to_value(&s.authorization_request_object).map_err(|e| e.to_string())?;
    if want["response_mode"].as_str().unwrap().starts_with("direct_post") {
        let u = got.get("response_uri").and_then(Json::as_str).and_then(|u| Url::parse(u).ok()).ok_or("no response address")?;
        ensure!(extends(&Url::parse(&p.submission).unwrap(), uuid, &u), "response address {u} below {}", p.submission);
        want.insert("response_uri".into(), got["response_uri"].clone());
    }
    ensure_eq!(got, Json::Object(want.clone()), "request object");
    ensure!(s.dcql_query == p.dcql.as_ref().unwrap().lib(), "query of the session");
    let payload = jws_payload(&s.authorization_request_jwt).ok_or("the signed request is not a JWS")?;
    ensure_eq!(payload, got, "signed object against the stored one");
    ensure!(
        verify_jws(signing_key(p.client.key).verifying_key(), &s.authorization_request_jwt),
        "the stored request is not signed by the verifier's key"
    );
    if let Some(j) = jwt {
        ensure_eq!(j, s.authorization_request_jwt, "returned request object");
        ensure!(matches!(s.status, Status::SentRequest), "status {:?}", s.status);
    }
    if let Some(u) = url {
        let e = Url::parse(&p.endpoint).unwrap();
        ensure_eq!((u.scheme(), u.authority(), u.path()), (e.scheme(), e.authority(), e.path()), "address of the wallet");
        let q: Vec<(String, String)> = u.query_pairs().into_owned().collect();
        ensure_eq!(q.len(), 2, "parameters of the URL {u}");
        let field = |k: &str| q.iter().find(|x| x.0 == k).map(|x| x.1.clone());
        ensure_eq!(field("client_id"), Some(p.client.id()), "client identifier in the URL");
        match &p.by_reference {
            None => {
                ensure_eq!(field("request"), Some(s.authorization_request_jwt.clone()), "request in the URL");
                ensure!(matches!(s.status, Status::SentRequest), "status {:?}", s.status);
            }
            Some(base) => {
                let at = field("request_uri").and_then(|u| Url::parse(&u).ok()).ok_or("no reference in the URL")?;
                ensure!(extends(&Url::parse(base).unwrap(), uuid, &at), "reference {at} below {base}");
                ensure!(matches!(s.status, Status::SentRequestByReference), "status {:?}", s.status);
            }
        }
        // and as this library's wallet side reads it
        let ar = AuthorizationRequest::from_url(u, &e).map_err(|e| format!("URL does not decode: {e:#}"))?;
        ensure_eq!(ar.client_id, Some(p.client.id()), "client identifier");
        ensure_eq!(
            matches!(ar.request_indirection, RequestIndirection::ByReference { .. }),
            p.by_reference.is_some(),
            "by reference"
        );
    }
    Ok(())
}

// the verifier itself: what it needs to be built
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Parts {
    client: bool,
    store: bool,
    endpoint: bool,
    by_reference: bool,
    fresh: u8,
}

fn parts(_: Tier) -> BoxedStrategy<Parts> {
    (prop::bool::weighted(0.85), prop::bool::weighted(0.85), prop::bool::weighted(0.85), any::<bool>(), 2u8..40)
        .prop_map(|(client, store, endpoint, by_reference, fresh)| Parts { client, store, endpoint, by_reference, fresh })
        .boxed()
}

fn test_parts(p: &Parts, obs: &mut Obs) -> Check {
    let c = ClientPlan { kind: 1, key: 1, did: "did:example:1".into(), frag: "0".into(), dns: "a.example".into(), before: vec![], more: vec![], other_ext: false, chain: 0, style: 0 };
    let store = Arc::new(SpyStore::default());
    let mut b = Verifier::builder();
    if p.client {
        b = b.with_client(c.client()?);
    }
    if p.store {
        b = b.with_session_store(store.clone());
    }
    if p.endpoint {
        b = b.with_submission_endpoint(Url::parse("https://v.example/s").unwrap());
    }
    if p.by_reference {
        b = b.by_reference(Url::parse("https://v.example/r").unwrap());
    }
    let v = run!(b.build());
    let complete = p.client && p.store && p.endpoint;
    ensure_eq!(v.is_ok(), complete, "verifier built (client {}, store {}, endpoint {})", p.client, p.store, p.endpoint);
    let Ok(v) = v else { return Ok(()) };
    obs.nontrivial();
    obs.label("identifiers");
    // identifiers of sessions are fresh
    let mut ids = std::collections::HashSet::new();
    let q: openid4vp::core::dcql_query::DcqlQuery =
        serde_json::from_value(json!({"credentials": [{"id": "a", "format": "mso_mdoc", "meta": {}}]})).map_err(|e| e.to_string())?;
    for i in 0..p.fresh {
        let r = v
            .build_authorization_request()
            .with_dcql_query(q.clone())
            .with_request_parameter(Raw::<1>(json!("vp_token")))
            .with_request_parameter(Raw::<2>(json!("dc_api")))
            .with_request_parameter(Raw::<3>(json!("n")));
        let id = if i % 2 == 0 {
            run!(r.build(metadata(json!({"client_id_prefixes_supported": ["x509_san_dns"]})))).map_err(|e| format!("{e:#}"))?.0
        } else {
            run!(r.build_dc_api()).map_err(|e| format!("{e:#}"))?.0
        };
        ensure!(EVER.lock().unwrap().get_or_insert_with(Default::default).insert(id), "session identifier {id} was given out before");
        ensure!(ids.insert(id), "session identifier {id} was given out twice");
    }
    ensure_eq!(store.sessions.lock().unwrap().len(), p.fresh as usize, "sessions");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        level: "exploration",
        assumptions: &["a base address's trailing slash may or may not count as an empty segment"],
        subs: vec![
            Box::new(SubCheck { name: "build", rule: "every case: the request must be refused, or is built and compared", quick: 20_000, thorough: 500_000, strat, examples: no_examples, test }),
            Box::new(SubCheck { name: "verifier", rule: "a complete verifier, whose session identifiers are compared", quick: 500, thorough: 5_000, strat: parts, examples: no_examples, test: test_parts }),
        ],
    }
}
