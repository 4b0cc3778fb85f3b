//! Changes to a compact JWS after (or in the course of) signing it.
use p256::ecdsa::Signature;
use proptest::{prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};

use crate::{gen, kit::*};

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Tamper {
    None,
    /// Replace one character of one part with another base64url character.
    Char { part: u8, pos: u16, to: u8 },
    /// Flip one bit of the signature.
    SigBit(u16),
    /// Keep only so many characters of the signature.
    TruncateSig(u8),
    /// Append bytes to the signature.
    LongSig(u8),
    ZeroSig,
    DerSig,
    PaddedSig,
    HighS,
    /// Replace a member of the payload, keeping the signature.
    Payload(String),
    /// Add a member to the header, keeping the signature.
    Header(String),
    /// Re-encode the payload with whitespace, keeping the signature.
    Respace,
    ExtraPart,
    DropPart,
    /// The signature is over the payload part only / over header only / over decoded bytes.
    SignOther(u8),
}

pub fn tamper() -> BoxedStrategy<Tamper> {
    prop_oneof![
        24 => Just(Tamper::None),
        3 => (0u8..3, any::<u16>(), 0u8..64).prop_map(|(part, pos, to)| Tamper::Char { part, pos, to }),
        2 => (0u16..512).prop_map(Tamper::SigBit),
        1 => (0u8..86).prop_map(Tamper::TruncateSig),
        1 => (1u8..40).prop_map(Tamper::LongSig),
        1 => Just(Tamper::ZeroSig),
        1 => Just(Tamper::DerSig),
        1 => Just(Tamper::PaddedSig),
        1 => Just(Tamper::HighS),
        2 => select(vec!["nonce", "response_uri", "client_id", "x"]).prop_map(|s| Tamper::Payload(s.into())),
        1 => prop_oneof![select(vec!["x", "cty"]).prop_map(String::from), gen::extension_name()].prop_map(Tamper::Header),
        1 => Just(Tamper::Respace),
        1 => Just(Tamper::ExtraPart),
        1 => Just(Tamper::DropPart),
        1 => (0u8..3).prop_map(Tamper::SignOther),
    ]
    .boxed()
}

const ALPHABET: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

/// A compact JWS of the header and payload by that key, changed as planned.
pub fn tampered(key: u8, header: &str, payload: &str, t: &Tamper) -> String {
    let jws = sign_jws_raw(key, header, payload.as_bytes());
    let mut parts: Vec<String> = jws.split('.').map(String::from).collect();
    let sig_bytes = unb64u(&parts[2]).unwrap();
    match t {
        Tamper::None => {}
        Tamper::Char { part, pos, to } => {
            let p = &mut parts[*part as usize % 3];
            if !p.is_empty() {
                let i = *pos as usize % p.len();
                let mut b = p.clone().into_bytes();
                b[i] = ALPHABET[*to as usize % 64];
                *p = String::from_utf8(b).unwrap();
            }
        }
        Tamper::SigBit(i) => {
            let mut b = sig_bytes;
            b[*i as usize / 8 % 64] ^= 1 << (i % 8);
            parts[2] = b64u(b);
        }
        Tamper::TruncateSig(n) => parts[2].truncate(*n as usize),
        Tamper::LongSig(n) => {
            let mut b = sig_bytes;
            b.extend(std::iter::repeat_n(7, *n as usize));
            parts[2] = b64u(b);
        }
        Tamper::ZeroSig => parts[2] = b64u([0u8; 64]),
        Tamper::DerSig | Tamper::HighS if key >= SECP256K1 => {
            let mut b = sig_bytes;
            b[5] ^= 1;
            parts[2] = b64u(b);
        }
        Tamper::DerSig => {
            let s = Signature::from_slice(&sig_bytes).unwrap();
            parts[2] = b64u(s.to_der().as_bytes());
        }
        Tamper::PaddedSig => parts[2] += "==",
        Tamper::HighS => {
            let s = Signature::from_slice(&sig_bytes).unwrap();
            let (r, v) = s.split_scalars();
            let neg = -v;
            if let Ok(n) = Signature::from_scalars(r.to_bytes(), neg.to_bytes()) {
                parts[2] = b64u(n.to_bytes());
            }
        }
        Tamper::Payload(name) => {
            if let Ok(Json::Object(mut o)) = serde_json::from_str::<Json>(payload) {
                o.insert(name.clone(), json!("https://evil.example/"));
                parts[1] = b64u(Json::Object(o).to_string());
            }
        }
        Tamper::Header(name) => {
            if let Ok(Json::Object(mut o)) = serde_json::from_str::<Json>(header) {
                o.insert(name.clone(), json!("other"));
                parts[0] = b64u(Json::Object(o).to_string());
            }
        }
        Tamper::Respace => parts[1] = b64u(format!(" {payload}")),
        Tamper::ExtraPart => parts.push(parts[2].clone()),
        Tamper::DropPart => {
            parts.pop();
        }
        Tamper::SignOther(k) => {
            let input = match k {
                0 => parts[1].clone().into_bytes(),
                1 => parts[0].clone().into_bytes(),
                _ => format!("{header}.{payload}").into_bytes(),
            };
            parts[2] = b64u(raw_sign(key, &input));
        }
    }
    parts.join(".")
}

/// Which of several things may be wrong; None: any number of them.
pub fn focus() -> BoxedStrategy<Option<u8>> {
    prop::option::weighted(0.6, any::<u8>()).boxed()
}

/// Which similar requests come before the one in question.
pub fn history() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![4 => Just(vec![]), 1 => prop::collection::vec(0u8..10, 1..4)].boxed()
}

/// Members a request object may have besides the protocol's: claims of JWTs and unknown ones.
pub fn claims() -> BoxedStrategy<serde_json::Map<String, Json>> {
    let claim = prop_oneof![
        (select(vec!["iss", "sub", "aud", "jti", "scope", "state"]), gen::text()).prop_map(|(k, v)| (k.to_string(), json!(v))),
        (select(vec!["exp", "nbf", "iat", "auth_time", "updated_at"]), select(vec![0i64, 1, 1_500_000_000, 4_000_000_000, -1])).prop_map(|(k, v)| (k.to_string(), json!(v))),
        (gen::extension_name(), gen::json_value()),
        gen::standard_param(),
        Just(("response_mode".to_string(), json!("dc_api"))),
    ];
    prop_oneof![3 => Just(serde_json::Map::new()), 2 => gen::vec(claim, 1..4).prop_map(|v| v.into_iter().collect())].boxed()
}

/// The algorithm lists of wallets: none, or some with or without ES256.
pub fn wallet_algs() -> BoxedStrategy<Option<Vec<String>>> {
    prop_oneof![
        12 => prop::sample::subsequence(vec!["RS256", "ES256", "EdDSA", "ES384"], 1..=4)
            .prop_filter("with ES256", |v| v.contains(&"ES256"))
            .prop_map(|v| Some(v.into_iter().map(String::from).collect())),
        1 => prop::sample::subsequence(vec!["RS256", "ES256K", "EdDSA", "es256", "ES256 ", "ES2566", "PS256", "HS256"], 0..=8)
            .prop_map(|v| Some(v.into_iter().map(String::from).collect())),
        1 => gen::vec(prop_oneof![3 => select(vec!["RS256", "ES384", "EdDSA", "PS256", "HS256", "ES512"]).prop_map(String::from), 1 => gen::word()], 0..12).prop_map(Some),
        1 => (gen::twist(), any::<bool>()).prop_map(|(t, also)| Some([t.apply("ES256")].into_iter().chain(also.then(|| "RS256".to_string())).collect())),
        1 => (gen::many(), any::<bool>()).prop_map(|(n, last)| {
            let mut v: Vec<String> = (0..n + 1).map(|i| format!("A{i}")).collect();
            let at = if last { v.len() } else { n / 2 };
            v.insert(at, "ES256".into());
            Some(v)
        }),
        1 => (select(vec!["", "*", "any", "all", "ES", "256", "HS256", "non", "null", "undefined"]), any::<bool>()).prop_map(|(s, also)| Some([s.to_string()].into_iter().chain(also.then(|| "RS256".to_string())).collect())),
        1 => Just(None),
    ]
    .boxed()
}

/// The `alg` header: mostly ES256.
pub fn alg_header() -> BoxedStrategy<Option<Json>> {
    prop_oneof![
        18 => Just(Some(json!("ES256"))),
        2 => select(vec!["none", "RS256", "ES256K", "ES384", "EdDSA", "HS256", "es256", "", "None", "ES256 "]).prop_map(|s| Some(json!(s))),
        1 => select(vec![json!(null), json!(256), json!(["ES256"]), json!({"alg": "ES256"}), json!(true)]).prop_map(Some),
        1 => Just(None),
        1 => gen::twist().prop_map(|t| Some(json!(t.apply("ES256")))),
        1 => prop_oneof![gen::twist().prop_map(|t| t.apply("none")), select(vec!["nonesuch", "None", "NONE", "non", "none ", "xnone", "no", "null", ""]).prop_map(String::from)].prop_map(|s| Some(json!(s))),
    ]
    .boxed()
}

/// Members of the header beyond those the protocol needs: (number, whether requests with it are
/// outside of what is stated when they are properly signed).
pub fn extra_header() -> BoxedStrategy<u8> {
    prop_oneof![10 => Just(0u8), 8 => 1u8..9].boxed()
}

/// Adds the numbered further members to a header.
pub fn add_extra(header: &mut serde_json::Map<String, Json>, k: u8, key: u8) {
    let (name, value) = match k {
        0 => return,
        1 => ("x_extra", json!({"a": [1]})),
        2 => ("jwk", public_jwk_json(key)),
        3 => ("jku", json!("https://evil.example/jwks")),
        4 => ("x5u", json!("https://evil.example/x5u")),
        5 => ("cty", json!("JWT")),
        6 => ("iss", json!("x509_san_dns:evil.example")),
        7 => ("b64", json!(false)),
        _ => ("crit", json!(["b64"])),
    };
    header.entry(name).or_insert(value);
    if k == 8 {
        header.insert("b64".into(), json!(false));
    }
}

/// Whether the header changes what is signed, so that only requests to refuse are stated.
pub fn unusual_header(header: &serde_json::Map<String, Json>) -> bool {
    header.contains_key("b64") || header.contains_key("crit")
}

/// Adds what every request needs to the payload of one.
pub fn add_needed(payload: &mut Json, nonce: &str) {
    payload["response_type"] = json!("vp_token");
    if payload.get("response_mode").is_none() {
        payload["response_mode"] = json!("direct_post");
        payload["response_uri"] = json!("https://verifier.example/r");
    }
    payload["nonce"] = json!(nonce);
}

/// One of the names involved, repeated where it does not count.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Echo(pub u8, pub u8);

pub fn echoes() -> BoxedStrategy<Vec<Echo>> {
    prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec((0u8..17, any::<u8>()).prop_map(|(a, b)| Echo(a, b)), 1..4)].boxed()
}

/// Repeats names in members of the header and the payload that have no part in the decision.
pub fn add_echoes(header: &mut serde_json::Map<String, Json>, payload: &mut Json, echoes: &[Echo], names: &[String]) {
    for Echo(slot, what) in echoes {
        if names.is_empty() {
            return;
        }
        let name = &names[*what as usize % names.len()];
        let member = |h: &mut serde_json::Map<String, Json>, k: &str, v: Json| {
            h.entry(k).or_insert(v);
        };
        match slot {
            0 | 1 => payload["iss"] = json!(name),
            2 => payload["sub"] = json!(name),
            3 => payload["aud"] = json!(name),
            4 => payload["state"] = json!(name),
            5 => payload["expected_origins"] = json!([format!("https://{name}")]),
            6 | 7 => {
                let host = name.rsplit(':').next().unwrap_or_default();
                let host = host.split('#').next().unwrap_or_default();
                let uri = format!("https://{host}/r");
                if payload.get("response_uri").is_some() && url::Url::parse(&uri).is_ok() {
                    payload["response_uri"] = json!(uri);
                }
            }
            8 => member(header, "iss", json!(name)),
            9 => member(header, "sub", json!(name)),
            10 => member(header, "origin", json!(name)),
            11 => member(header, "client_id", json!(name)),
            12 => payload["client_id_scheme"] = json!(name.split(':').next()),
            13 | 14 => {
                let uri = name.strip_prefix("redirect_uri:").unwrap_or(name);
                if payload.get("response_uri").is_some() && url::Url::parse(uri).is_ok() {
                    payload["response_uri"] = json!(uri);
                }
            }
            15 => payload["nonce"] = json!(name),
            _ => payload["azp"] = json!(name),
        }
    }
}
