//! C26: encrypted responses open only for the verifier's key and carry the response.
//!
//! Built as a crate of its own, because src/core/jwe.rs needs josekit, which a stand-in replaces.
use openid4vp::core::{
    authorization_request::parameters::State,
    jwe::{build_encrypted_response, find_encryption_jwk, JweBuilder},
    response::AuthorizationResponse,
};
use p256::elliptic_curve::{
    point::AffineCoordinates,
    sec1::{FromEncodedPoint, ToEncodedPoint},
};
use crate::gen::vec;
use proptest::{option, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};
use sha2::{Digest, Sha256};

use crate::{ensure, ensure_eq, fail, fw::*, gen, kit::*};

#[allow(dead_code)]
#[path = "../../harness/src/props/c11.rs"]
mod c11;
use c11::{item, lib_token, token_json, Item};

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Broken {
    No,
    OffCurve,
    NoY,
    ShortX,
    KtyOkp,
    NoKty,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Key {
    alg: Option<String>,
    crv: Option<String>,
    usage: Option<String>,
    kid: Option<String>,
    broken: Broken,
    more: Map<String, Json>,
}

fn key() -> BoxedStrategy<Key> {
    let or = |good: &'static str, w: u32, others: &'static [&'static str]| {
        prop_oneof![w => Just(Some(good.to_string())), 1 => Just(None), 2 => select(others.to_vec()).prop_map(|s| Some(s.to_string())), 1 => gen::twist().prop_map(move |t| Some(t.apply(good)))]
    };
    (
        or("ECDH-ES", 12, &["ECDH-ES+A128KW", "ECDH-ES+A256KW", "ES256", "ecdh-es", "", "ECDH-ES ", "RSA-OAEP", "dir"]),
        or("P-256", 12, &["P-384", "P-521", "secp256k1", "p-256", "", "P-256K"]),
        prop_oneof![8 => Just(Some("enc".to_string())), 6 => Just(None), 3 => select(vec!["sig", "", "ENC", "enc ", "encrypt"]).prop_map(|s| Some(s.to_string())), 1 => gen::twist().prop_map(|t| Some(t.apply("enc")))],
        option::of(gen::text()),
        prop_oneof![12 => Just(Broken::No), 1 => select(vec![Broken::OffCurve, Broken::NoY, Broken::ShortX, Broken::KtyOkp, Broken::NoKty])],
        prop_oneof![3 => Just(Map::new()), 1 => vec(prop_oneof![
            2 => ("x-[a-z]{1,4}", gen::json_value()),
            2 => select(vec![("key_ops", json!(["deriveKey"])), ("key_ops", json!(["deriveBits", "deriveKey"])), ("x5u", json!("https://verifier.example/c")), ("x5t", json!("dGVzdA")), ("x5c", json!(["MIIB"])), ("exp", json!(1)), ("nbf", json!(9_999_999_999u64)), ("iat", json!(1)), ("ext", json!(true)), ("d_", json!("x")), ("enc", json!("A256GCM")), ("status", json!("revoked"))]).prop_map(|(k, v)| (k.to_string(), v)),
            1 => (gen::extension_name().prop_filter("no member of a key", |n| !["kty", "x", "y", "alg", "crv", "use", "kid", "d", "key_ops", "x5u", "x5c", "x5t", "x5t#S256"].contains(&n.as_str())), gen::json_value()),
        ], 0..3).prop_map(|v| v.into_iter().collect())],
    )
        .prop_map(|(alg, crv, usage, kid, broken, more)| Key { alg, crv, usage, kid, broken, more })
        .boxed()
}

fn secret(i: usize) -> p256::NonZeroScalar {
    let s = p256::SecretKey::from_slice(&Sha256::digest(format!("encryption key {i}"))).expect("a key");
    s.to_nonzero_scalar()
}

impl Key {
    fn json(&self, i: usize) -> Map<String, Json> {
        let p = p256::PublicKey::from_secret_scalar(&secret(i)).to_encoded_point(false);
        let mut x = p.x().unwrap().to_vec();
        let mut y = p.y().unwrap().to_vec();
        let mut o = self.more.clone();
        match self.broken {
            Broken::OffCurve => y[3] ^= 1,
            Broken::ShortX => {
                x.pop();
            }
            _ => {}
        }
        if self.broken != Broken::NoKty {
            o.insert("kty".into(), json!(if self.broken == Broken::KtyOkp { "OKP" } else { "EC" }));
        }
        o.insert("x".into(), json!(b64u(&x)));
        if self.broken != Broken::NoY {
            o.insert("y".into(), json!(b64u(&y)));
        }
        for (k, v) in [("alg", &self.alg), ("crv", &self.crv), ("use", &self.usage), ("kid", &self.kid)] {
            if let Some(v) = v {
                o.insert(k.into(), json!(v));
            }
        }
        o
    }
    fn suitable(&self) -> bool {
        self.alg.as_deref() == Some("ECDH-ES") && self.crv.as_deref() == Some("P-256") && matches!(self.usage.as_deref(), None | Some("enc"))
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    keys: Vec<Key>,
    enc: Option<Vec<String>>,
    token: Vec<(String, Vec<Item>)>,
    state: Option<String>,
    /// 0: no client metadata, 1: no key set, 2: an ill-formed list of methods, otherwise complete.
    missing: u8,
    flip: u32,
}

fn enc() -> BoxedStrategy<String> {
    prop_oneof![5 => Just("A128GCM".to_string()), 5 => Just("A256GCM".to_string()), 1 => select(vec!["A128CBC-HS256", "XC20P", "", "a256gcm"]).prop_map(String::from), 1 => (gen::twist(), any::<bool>()).prop_map(|(t, b)| t.apply(if b { "A128GCM" } else { "A256GCM" }))].boxed()
}

fn plan(_: Tier) -> BoxedStrategy<Plan> {
    (
        prop_oneof![
            6 => vec(key(), 0..5),
            1 => (vec(key(), 1..4), vec(key(), 1..3), gen::many()).prop_map(|(few, last, n)| {
                let unsuitable = few.into_iter().filter(|k| !k.suitable()).collect::<Vec<_>>();
                unsuitable.iter().cycle().take(n).cloned().chain(last).collect()
            }),
        ],
        option::weighted(0.75, vec(enc(), 0..4)),
        vec((prop_oneof![2 => gen::ident(), 1 => gen::text()], vec(item(), 0..4)), 0..4),
        option::of(gen::text()),
        0u8..24,
        any::<u32>(),
    )
        .prop_map(|(keys, enc, token, state, missing, flip)| Plan { keys, enc, token, state, missing, flip })
        .boxed()
}

// ---------------------------------------------------------------------------------------------
// an independent reader of compact JWEs

fn decode(s: &str) -> Result<Vec<u8>, String> {
    use base64::prelude::*;
    BASE64_URL_SAFE_NO_PAD.decode(s).map_err(|e| e.to_string())
}

fn header_of(jwe: &str) -> Result<Json, String> {
    serde_json::from_slice(&decode(jwe.split('.').next().unwrap())?).map_err(|e| e.to_string())
}

fn open(jwe: &str, secret: &p256::NonZeroScalar) -> Result<Vec<u8>, String> {
    let parts: Vec<&str> = jwe.split('.').collect();
    if parts.len() != 5 || !parts[1].is_empty() {
        return Err("not five parts with an empty key".into());
    }
    let header = header_of(jwe)?;
    let text = |v: &Json| v.as_str().map(String::from).ok_or_else(|| "not a string".to_string());
    if header["alg"] != "ECDH-ES" {
        return Err("another algorithm".into());
    }
    let enc = text(&header["enc"])?;
    let (alg, n) = match enc.as_str() {
        "A128GCM" => (&ring::aead::AES_128_GCM, 16usize),
        "A256GCM" => (&ring::aead::AES_256_GCM, 32),
        _ => return Err("another method".into()),
    };
    let coordinate = |k: &str| -> Result<p256::FieldBytes, String> {
        let b = decode(&text(&header["epk"][k])?)?;
        if b.len() != 32 {
            return Err("a coordinate's length".into());
        }
        Ok(*p256::FieldBytes::from_slice(&b))
    };
    let point = p256::EncodedPoint::from_affine_coordinates(&coordinate("x")?, &coordinate("y")?, false);
    let epk: p256::PublicKey = Option::from(p256::PublicKey::from_encoded_point(&point)).ok_or("not on the curve")?;
    let z = (epk.to_projective() * **secret).to_affine().x();
    let info = |k: &str| -> Result<Vec<u8>, String> {
        match header.get(k) {
            None => Ok(vec![]),
            Some(v) => decode(&text(v)?),
        }
    };
    let mut input = 1u32.to_be_bytes().to_vec();
    input.extend(z);
    for p in [enc.into_bytes(), info("apu")?, info("apv")?] {
        input.extend((p.len() as u32).to_be_bytes());
        input.extend(p);
    }
    input.extend((8 * n as u32).to_be_bytes());
    let key = Sha256::digest(&input)[..n].to_vec();
    let iv: [u8; 12] = decode(parts[2])?.try_into().map_err(|_| "the length of the IV")?;
    let tag = decode(parts[4])?;
    if tag.len() != 16 {
        return Err("the length of the tag".into());
    }
    let mut text = decode(parts[3])?;
    text.extend(tag);
    let key = ring::aead::LessSafeKey::new(ring::aead::UnboundKey::new(alg, &key).map_err(|e| e.to_string())?);
    key.open_in_place(ring::aead::Nonce::assume_unique_for_key(iv), ring::aead::Aad::from(parts[0].as_bytes()), &mut text).map(|t| t.to_vec()).map_err(|e| e.to_string())
}

/// The JWE opens with key `at` and no other of `n`, to `want`, with that key's header.
fn check_jwe(jwe: &str, at: usize, n: usize, kid: Option<&str>, enc: &str, want: &Json, flip: u32) -> Check {
    let header = header_of(jwe)?;
    ensure_eq!(header["alg"], json!("ECDH-ES"), "alg");
    ensure_eq!(header["enc"], json!(enc), "enc");
    ensure_eq!(header.get("kid").cloned(), kid.map(|k| json!(k)), "kid");
    let text = match open(jwe, &secret(at)) {
        Ok(t) => t,
        Err(e) => fail!("the response does not open with key {at}: {e}; header {header}"),
    };
    let got: Json = serde_json::from_slice(&text).map_err(|e| e.to_string())?;
    ensure_eq!(&got, want, "content of the response");
    for i in (0..n + 1).filter(|i| *i != at && (*i < 5 || i.abs_diff(at) < 3 || *i == n)) {
        ensure!(open(jwe, &secret(i)).is_err(), "the response opens with key {i}, not only with key {at}");
    }
    let mut b = jwe.as_bytes().to_vec();
    let i = flip as usize % b.len();
    let c = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_."[(flip >> 16) as usize % 65];
    if b[i] != c {
        b[i] = c;
        ensure!(open(std::str::from_utf8(&b).unwrap(), &secret(at)).is_err(), "the response still opens after a change at {i}");
    }
    Ok(())
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let keys: Vec<Map<String, Json>> = p.keys.iter().enumerate().map(|(i, k)| k.json(i)).collect();
    let chosen = p.keys.iter().position(Key::suitable);

    // the choice of the key
    let found = find_encryption_jwk(keys.iter());
    let whole = |i: usize| matches!(p.keys[i].broken, Broken::No);
    match chosen {
        None => ensure!(found.is_err(), "a key was found where none is suitable: {found:?}"),
        Some(i) if whole(i) => {
            let Ok(f) = found else { fail!("key {i} is suitable, but none was found") };
            ensure_eq!(f.alg, "ECDH-ES", "alg of the key found");
            ensure_eq!(f.kid, p.keys[i].kid.clone(), "kid of the key found");
            ensure_eq!(serde_json::to_value(&f.jwk).map_err(|e| e.to_string())?, Json::Object(keys[i].clone()), "the key found");
        }
        Some(_) => {}
    }

    // the response
    let mut meta = json!({"vp_formats_supported": {}});
    if p.missing != 1 {
        meta["jwks"] = json!({ "keys": keys });
    }
    if let Some(e) = &p.enc {
        meta["encrypted_response_enc_values_supported"] = json!(e);
    }
    if p.missing == 2 {
        meta["encrypted_response_enc_values_supported"] = json!({"A128GCM": 1});
    }
    let mut request = json!({"response_type": "vp_token", "nonce": "n", "response_mode": "direct_post.jwt", "response_uri": "https://verifier.example/response"});
    if p.missing != 0 {
        request["client_metadata"] = meta;
    }
    let request = aro(request).map_err(|e| e.to_string())?;
    let state = p.state.clone().map(State);
    let r = build_encrypted_response(&request, &lib_token(&p.token), state.as_ref());
    let listed = match p.enc.as_ref().and_then(|e| e.first()) {
        Some(e) => e.as_str(),
        None => "A128GCM",
    };
    let known = matches!(listed, "A128GCM" | "A256GCM");
    let chosen = match chosen {
        _ if p.missing < 3 => None,
        Some(_) if !known => None,
        c => c,
    };
    match (r, chosen) {
        (Ok(r), Some(i)) => {
            let AuthorizationResponse::Jwt(j) = r else { fail!("a response that is not encrypted") };
            let mut want = json!({"vp_token": token_json(&p.token)});
            if let Some(s) = &p.state {
                want["state"] = json!(s);
            }
            obs.nontrivial();
            obs.label("encrypted");
            if i > 0 {
                obs.label("a later key");
            }
            ensure!(whole(i), "a response for a malformed key");
            check_jwe(&j.response, i, p.keys.len(), p.keys[i].kid.as_deref(), listed, &want, p.flip)?;
        }
        (Ok(_), None) => fail!("a response was built without a suitable key, key set or method"),
        (Err(e), Some(i)) => {
            ensure!(!whole(i), "no response for a suitable key: {e:#}");
            obs.label("malformed key");
        }
        (Err(_), None) => {
            obs.nontrivial();
            obs.label(if p.missing < 3 { "metadata missing" } else if known { "no suitable key" } else { "unknown method" });
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// the builder

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Build {
    payload: Option<Json>,
    key: Option<Key>,
    as_json: bool,
    alg: Option<String>,
    enc: Option<String>,
    kid: Option<String>,
    order: u8,
    flip: u32,
}

fn build(_: Tier) -> BoxedStrategy<Build> {
    (
        option::weighted(0.95, prop_oneof![5 => gen::json_object().prop_map(Json::Object), 1 => gen::json_value()]),
        option::weighted(0.95, key()),
        any::<bool>(),
        prop_oneof![8 => Just(Some("ECDH-ES".to_string())), 1 => Just(None), 1 => select(vec!["ECDH-ES+A128KW", "ecdh-es", "", "dir", "RSA-OAEP-256"]).prop_map(|s| Some(s.to_string()))],
        option::of(enc()),
        option::of(gen::text()),
        any::<u8>(),
        any::<u32>(),
    )
        .prop_map(|(payload, key, as_json, alg, enc, kid, order, flip)| Build { payload, key, as_json, alg, enc, kid, order, flip })
        .boxed()
}

fn test_build(p: &Build, obs: &mut Obs) -> Check {
    const REGISTERED: [&str; 7] = ["iss", "sub", "aud", "exp", "nbf", "iat", "jti"];
    if p.payload.as_ref().and_then(Json::as_object).is_some_and(|o| REGISTERED.iter().any(|k| o.contains_key(*k))) {
        return Ok(());
    }
    let mut b = JweBuilder::new();
    // the setters in any order
    for step in 0..5u8 {
        b = match (step + p.order % 5) % 5 {
            0 => match &p.payload {
                Some(j) => b.payload(j.clone()),
                None => b,
            },
            1 => match &p.key {
                None => b,
                Some(k) => {
                    let j = Json::Object(k.json(0));
                    if p.as_json {
                        match b.recipient_key_json(&j) {
                            Ok(b) => b,
                            Err(e) => {
                                ensure!(k.broken == Broken::NoKty, "a key was refused: {e:#}");
                                return Ok(());
                            }
                        }
                    } else {
                        match josekit::jwk::Jwk::from_bytes(j.to_string().as_bytes()) {
                            Ok(j) => b.recipient_key(j),
                            Err(_) => return Ok(()),
                        }
                    }
                }
            },
            2 => match &p.alg {
                Some(a) => b.alg(a),
                None => b,
            },
            3 => match &p.enc {
                Some(e) => b.enc(e),
                None => b,
            },
            _ => match &p.kid {
                Some(k) => b.kid(k),
                None => b,
            },
        };
    }
    let r = b.build();
    let enc = p.enc.as_deref().unwrap_or("A128GCM");
    let complete = p.payload.as_ref().is_some_and(Json::is_object) && p.alg.as_deref() == Some("ECDH-ES") && matches!(enc, "A128GCM" | "A256GCM");
    match (r, &p.key) {
        (Ok(jwe), Some(k)) => {
            ensure!(complete, "a JWE from an incomplete or unsupported description");
            ensure!(k.broken == Broken::No, "a JWE for a malformed key");
            obs.nontrivial();
            obs.label("built");
            check_jwe(&jwe, 0, 1, p.kid.as_deref().or(k.kid.as_deref()), enc, p.payload.as_ref().unwrap(), p.flip)
        }
        (Ok(_), None) => fail!("a JWE without a key"),
        (Err(e), Some(k)) => {
            // whether a key meant for something else is taken is the business of its choice
            let plain = k.broken == Broken::No && k.suitable();
            ensure!(!(complete && plain), "no JWE for a complete description: {e:#}");
            obs.nontrivial();
            obs.label("refused");
            Ok(())
        }
        (Err(_), None) => {
            obs.nontrivial();
            obs.label("refused");
            Ok(())
        }
    }
}

fn prop() -> Prop {
    Prop {
        id: "C26",
        level: "exploration",
        assumptions: &["josekit is replaced by a stand-in written from the RFCs (the git dependency cannot be fetched offline): what is decided is what src/core/jwe.rs asks of it", "content encryption A128GCM and A256GCM"],
        subs: vec![
            Box::new(SubCheck { name: "responses", rule: "a request with zero to four keys (sometimes many), and a response; non-trivial: a response was opened, or rightly refused", quick: 12_000, thorough: 600_000, strat: plan, examples: no_examples, test }),
            Box::new(SubCheck { name: "builder", rule: "a payload, key and settings in any order; non-trivial: a JWE was opened, or rightly refused", quick: 8_000, thorough: 300_000, strat: build, examples: no_examples, test: test_build }),
        ],
    }
}

pub fn find(id: &str) -> Option<Prop> {
    Some(prop()).filter(|p| p.id == id)
}

pub fn ids() -> Vec<&'static str> {
    vec!["C26"]
}
