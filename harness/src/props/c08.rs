//! C08: encrypted responses are agreed only with keys and ciphers both sides support.
use openid4vp::core::authorization_request::{AuthorizationRequest, RequestIndirection};
use proptest::{option, prelude::*, sample::select};

use crate::gen::vec;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};

use crate::{ensure_eq, fw::*, gen, kit::*, run};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    /// 0 direct_post, 1 direct_post.jwt, 2 dc_api, 3 dc_api.jwt
    mode: u8,
    metadata: Option<Json>,
    wallet_algs: Option<Json>,
    wallet_encs: Option<Json>,
    signed: bool,
    /// Who asks, see [CLIENTS].
    #[serde(default)]
    client: u8,
    /// The request object is fetched.
    #[serde(default)]
    fetched: bool,
    answer_headers: Vec<(String, String)>,
    #[serde(default)]
    extra: Map<String, Json>,
}

const CLIENTS: [&str; 9] = [
    "client",
    "redirect_uri:https://verifier.example/r",
    "x509_san_dns:verifier.example",
    "x509_hash:Uvo3HtuIxuhC92rShpgqcT3YXwrqRxWEviRiA0OZszk",
    "decentralized_identifier:did:web:verifier.example",
    "openid_federation:https://verifier.example",
    "verifier_attestation:verifier.example",
    "pre-registered:verifier",
    "custom:verifier",
];
const MODES: [&str; 4] = ["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"];
const ALGS: [&str; 6] = ["ECDH-ES", "ECDH-ES+A128KW", "RSA-OAEP", "RSA-OAEP-256", "ecdh-es", "ECDH"];
const ENCS: [&str; 7] = ["A128GCM", "A256GCM", "A192GCM", "A128CBC-HS256", "A256CBC-HS512", "a128gcm", "A128"];

fn key() -> BoxedStrategy<Json> {
    (
        prop_oneof![
            10 => Just(Some(json!("enc"))),
            3 => select(vec!["sig", "ENC", "enc ", "", "encryption"]).prop_map(|s| Some(json!(s))),
            1 => select(vec![json!(null), json!(["enc"]), json!(1)]).prop_map(Some),
            1 => gen::twist().prop_map(|t| Some(json!(t.apply("enc")))),
            2 => Just(None),
        ],
        prop_oneof![
            6 => select(ALGS[..2].to_vec()).prop_map(|s| Some(json!(s))),
            6 => select(ALGS.to_vec()).prop_map(|s| Some(json!(s))),
            1 => select(vec![json!(null), json!(["ECDH-ES"]), json!(7)]).prop_map(Some),
            1 => value(&ALGS).prop_map(|s| Some(json!(s))),
            2 => Just(None),
        ],
        any::<bool>(),
        prop_oneof![2 => Just(Map::new()), 1 => more()],
    )
        .prop_map(|(u, a, full, more)| {
            let mut o = more;
            if full {
                o.insert("kty".into(), json!("EC"));
                o.insert("crv".into(), json!("P-256"));
                o.insert("kid".into(), json!("k"));
            }
            if let Some(u) = u {
                o.insert("use".into(), u);
            }
            if let Some(a) = a {
                o.insert("alg".into(), a);
            }
            Json::Object(o)
        })
        .boxed()
}

/// A name close to one of those that matter, or any other text.
fn value(from: &'static [&'static str]) -> BoxedStrategy<String> {
    prop_oneof![3 => (gen::twist(), select(from.to_vec())).prop_map(|(t, s)| t.apply(s)), 1 => gen::text(), 1 => gen::word()].boxed()
}

/// Members of a key that are no part of the agreement.
fn more() -> BoxedStrategy<Map<String, Json>> {
    let member = prop_oneof![
        2 => (select(vec!["key_ops", "enc", "Use", "Alg", "algs", "use ", "uses", "x5c", "exp", "status", "ext"]).prop_map(String::from), prop_oneof![
            select(vec![json!(["encrypt"]), json!(["deriveKey"]), json!(["sign"]), json!("enc"), json!("sig"), json!("ECDH-ES"), json!(["ECDH-ES"]), json!([]), json!("A128GCM"), json!(1), json!(null)]),
            gen::json_value(),
        ]),
        1 => (gen::extension_name(), gen::json_value()),
    ];
    vec(member, 1..4).prop_map(|v| v.into_iter().filter(|(k, _)| k != "use" && k != "alg").collect()).boxed()
}

fn list(from: &'static [&'static str]) -> BoxedStrategy<Json> {
    prop_oneof![
        6 => vec(select(from[..2].to_vec()), 1..3).prop_map(|v| json!(v)),
        12 => vec(select(from.to_vec()), 0..5).prop_map(|v| json!(v)),
        4 => vec(prop_oneof![1 => select(from.to_vec()).prop_map(String::from), 1 => value(from)], 0..4).prop_map(|v| json!(v)),
        // very many that do not matter
        1 => (gen::many(), option::of((any::<u16>(), select(from.to_vec())))).prop_map(|(n, s)| {
            let mut v: Vec<String> = (0..=n).map(|i| format!("X{i}")).collect();
            if let Some((i, s)) = s {
                v.insert(i as usize % (n + 2), s.into());
            }
            json!(v)
        }),
        1 => select(vec![json!(null), json!("A128GCM"), json!([1]), json!({}), json!(["A128GCM", null])]),
    ]
    .boxed()
}

/// Further metadata, among it names close to those that matter.
fn further() -> BoxedStrategy<Map<String, Json>> {
    let member = prop_oneof![
        2 => (select(vec!["authorization_encrypted_response_alg", "authorization_encrypted_response_enc", "encrypted_response_alg_values_supported", "jwks_uri", "encrypted_response_enc_values", "encrypted_response_enc_value_supported", "JWKS", "keys"]).prop_map(String::from), prop_oneof![
            select(vec![json!("ECDH-ES"), json!("A128GCM"), json!("A256GCM"), json!(["A128GCM"]), json!(["A256GCM", "A128GCM"]), json!({"keys": [{"use": "enc", "alg": "ECDH-ES"}]}), json!([{"use": "enc", "alg": "ECDH-ES"}]), json!("https://verifier.example/jwks")]),
            gen::json_value(),
        ]),
        1 => (gen::extension_name(), gen::json_value()),
    ];
    vec(member, 1..3).prop_map(|v| v.into_iter().filter(|(k, _)| !["jwks", "encrypted_response_enc_values_supported", "vp_formats_supported"].contains(&k.as_str())).collect()).boxed()
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    let jwks = prop_oneof![
        14 => vec(key(), 0..5).prop_map(|k| json!({"keys": k})),
        1 => select(vec![json!(null), json!({}), json!("x"), json!({"keys": {}}), json!({"keys": [1]}), json!({"keys": null}), json!({"keys": [{"use": "enc", "alg": "ECDH-ES"}, "x"]})]),
    ];
    let md = prop_oneof![
        12 => (option::weighted(0.95, jwks), option::weighted(0.6, list(&ENCS)), any::<bool>(), prop_oneof![2 => Just(Map::new()), 1 => further()]).prop_map(|(j, e, x, more)| {
            let mut o = more;
            if let Some(j) = j {
                o.insert("jwks".into(), j);
            }
            if let Some(e) = e {
                o.insert("encrypted_response_enc_values_supported".into(), e);
            }
            if x {
                o.insert("vp_formats_supported".into(), json!({"mso_mdoc": {}}));
            }
            Some(Json::Object(o))
        }),
        1 => Just(None),
        1 => select(vec![json!(null), json!("{}"), json!([]), json!(1)]).prop_map(Some),
    ];
    (
        prop_oneof![1 => Just(0u8), 4 => Just(1u8), 1 => Just(2u8), 3 => Just(3u8)],
        md,
        option::weighted(0.7, list(&ALGS)),
        option::weighted(0.7, list(&ENCS)),
        any::<bool>(),
        option::weighted(0.5, (0u8..6, any::<[u8; 4]>(), select(ALGS.to_vec()), select(ENCS.to_vec()))),
        (prop_oneof![2 => Just(0u8), 3 => 0..CLIENTS.len() as u8], prop::bool::weighted(0.2), gen::bystanders(), gen::answer_headers()),
    )
        .prop_map(|(mode, metadata, wallet_algs, wallet_encs, signed, agree, (client, fetched, extra, answer_headers))| {
            let p = Plan {
                mode,
                metadata,
                wallet_algs,
                wallet_encs,
                signed,
                client,
                fetched,
                answer_headers,
                extra,
            };
            match agree {
                Some((but, at, alg, enc)) => agreeing(p, but, at, alg, enc),
                None => p,
            }
        })
        .boxed()
}

/// The plan with a common algorithm and method everywhere but in one place.
fn agreeing(mut p: Plan, but: u8, at: [u8; 4], alg: &str, enc: &str) -> Plan {
    let add = |list: &mut Json, what: Json, at: u8| {
        if strings(list).is_none() && !list.as_array().is_some_and(|l| l.iter().all(Json::is_object)) {
            *list = json!([]);
        }
        let l = list.as_array_mut().unwrap();
        // at either end of very many
        let at = if l.len() > 200 && at % 2 == 0 { l.len() } else { at as usize % (l.len() + 1) };
        l.insert(at, what);
    };
    if !matches!(p.metadata, Some(Json::Object(_))) {
        p.metadata = Some(json!({}));
    }
    let md = p.metadata.as_mut().unwrap();
    if but != 0 {
        if !md["jwks"]["keys"].as_array().is_some_and(|k| k.iter().all(Json::is_object)) {
            md["jwks"] = json!({"keys": []});
        }
        add(&mut md["jwks"]["keys"], json!({"use": "enc", "alg": alg}), at[0]);
    }
    if but != 1 {
        if let Some(l) = md.get_mut("encrypted_response_enc_values_supported") {
            add(l, json!(enc), at[1]);
        }
    }
    if let (true, Some(l)) = (but != 2, &mut p.wallet_algs) {
        add(l, json!(alg), at[2]);
    }
    if let (true, Some(l)) = (but != 3, &mut p.wallet_encs) {
        let enc = if md.get("encrypted_response_enc_values_supported").is_some() { enc } else { "A128GCM" };
        add(l, json!(enc), at[3]);
    }
    p
}

fn strings(j: &Json) -> Option<Vec<String>> {
    j.as_array()?
        .iter()
        .map(|s| s.as_str().map(String::from))
        .collect()
}

/// The statement, read directly.
fn expected(p: &Plan) -> bool {
    let md = match &p.metadata {
        None => Map::new(),
        Some(Json::Object(o)) => o.clone(),
        Some(_) => return false,
    };
    if p.mode % 2 == 0 {
        return true;
    }
    let Some(keys) = md
        .get("jwks")
        .and_then(|j| j.get("keys"))
        .and_then(|k| k.as_array())
    else {
        return false;
    };
    if !keys.iter().all(|k| k.is_object()) {
        return false;
    }
    let algs: Vec<&str> = keys
        .iter()
        .filter(|k| k.get("use").and_then(|u| u.as_str()) == Some("enc"))
        .filter_map(|k| k.get("alg").and_then(|a| a.as_str()))
        .collect();
    if algs.is_empty() {
        return false;
    }
    let encs = match md.get("encrypted_response_enc_values_supported") {
        None => vec!["A128GCM".to_string()],
        Some(j) => match strings(j) {
            Some(s) => s,
            None => return false,
        },
    };
    if let Some(l) = &p.wallet_algs {
        let Some(l) = strings(l) else { return false };
        if !algs.iter().any(|a| l.iter().any(|b| a == b)) {
            return false;
        }
    }
    if let Some(l) = &p.wallet_encs {
        let Some(l) = strings(l) else { return false };
        if !encs.iter().any(|a| l.contains(a)) {
            return false;
        }
    }
    true
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let client = CLIENTS[p.client as usize % CLIENTS.len()];
    let mut extra = p.extra.clone();
    extra.remove("client_metadata");
    let mut payload = Json::Object(extra);
    payload["client_id"] = json!(client);
    payload["response_type"] = json!("vp_token");
    payload["response_mode"] = json!(MODES[p.mode as usize % 4]);
    payload["nonce"] = json!("n");
    if p.mode < 2 {
        payload["response_uri"] = json!("https://verifier.example/r");
    }
    if let Some(m) = &p.metadata {
        payload["client_metadata"] = m.clone();
    }
    let mut meta = json!({"client_id_prefixes_supported": CLIENTS.iter().filter_map(|c| c.split_once(':')).map(|c| c.0).collect::<Vec<_>>()});
    if let Some(l) = &p.wallet_algs {
        meta["authorization_encryption_alg_values_supported"] = l.clone();
    }
    if let Some(l) = &p.wallet_encs {
        meta["authorization_encryption_enc_values_supported"] = l.clone();
    }
    let jwt = if p.signed { sign_jws(0, &json!({"alg": "ES256", "typ": TYP}), &payload) } else { String::new() };
    let body = jwt.clone().into_bytes();
    let http = MockHttp::new(HttpAnswer::Answer { status: 200, body }).with_headers(&p.answer_headers);
    let w = RecordingWallet::new(metadata(meta), http, true);
    let req = AuthorizationRequest {
        client_id: Some(client.into()),
        request_indirection: if p.signed && p.fetched {
            obs.label("fetched");
            RequestIndirection::ByReference {
                request_uri: "https://verifier.example/q".parse().unwrap(),
            }
        } else if p.signed {
            RequestIndirection::ByValue { request: jwt }
        } else {
            RequestIndirection::Direct(uo(payload))
        },
    };
    let got = run!(req.validate(&w));
    let expect = expected(p);
    if p.mode % 2 == 1 {
        obs.nontrivial();
        obs.label(if expect { "agreed" } else { "refused" });
        if expect && p.wallet_algs.is_some() && p.wallet_encs.is_some() {
            obs.label("agreed on both lists");
        }
    } else {
        obs.label("unencrypted");
    }
    ensure_eq!(got.is_ok(), expect, "verdict ({:?})", got.err().map(|e| format!("{e:#}")));
    if p.mode % 2 == 1 && p.client > 0 && expect {
        obs.label("agreed with a prefixed client");
    }
    ensure_eq!(w.seen().len(), expect as usize, "verifications that ran");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        level: "exploration",
        assumptions: &["metadata in the request itself (metadata by other means is left to the wallet)"],
        subs: vec![Box::new(SubCheck {
            name: "negotiation",
            rule: "the request asks for an encrypted response",
            quick: 60_000,
            thorough: 2_000_000,
            strat,
            examples: no_examples,
            test,
        })],
    }
}
