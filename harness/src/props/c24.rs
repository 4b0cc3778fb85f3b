//! C24: verifier clients sign what they say, as who they are.
use anyhow::{bail, Result as AResult};
use async_trait::async_trait;
use openid4vp::verifier::{
    client::{Client, DIDClient, X509HashClient, X509SanDnsClient},
    request_signer::{P256Signer, RequestSigner},
};
use p256::ecdsa::VerifyingKey;
use proptest::{option, prelude::*, sample::select};

use crate::gen::{seq, vec};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};
use ssi_claims::jws::JwsSigner;
use ssi_jwk::{Algorithm, JWK};
use std::sync::{Arc, Mutex};

use super::x509::cert_plan;
use crate::{ensure, ensure_eq, fail, fw::*, gen, kit::*, run};

/// A signer that signs in a way of its own and records what it is given.
#[derive(Debug)]
struct OwnSigner {
    key: u8,
    alg: Option<String>,
    jwk: bool,
    /// Further members of its key.
    members: Map<String, Json>,
    salt: Vec<u8>,
    /// Only `sign` is provided.
    plain: bool,
    seen: Mutex<Vec<Vec<u8>>>,
}

fn mark(salt: &[u8], payload: &[u8]) -> Vec<u8> {
    let mut v = sha([salt, payload].concat());
    v.truncate(salt.len().clamp(1, 32));
    v
}

#[async_trait]
impl RequestSigner for OwnSigner {
    type Error = anyhow::Error;
    fn alg(&self) -> AResult<String> {
        match &self.alg {
            Some(a) => Ok(a.clone()),
            None => bail!("no algorithm"),
        }
    }
    fn jwk(&self) -> AResult<JWK> {
        if self.jwk {
            let mut j = public_jwk_json(self.key);
            j.as_object_mut().expect("key").extend(self.members.clone());
            Ok(serde_json::from_value(j)?)
        } else {
            bail!("no key")
        }
    }
    async fn sign(&self, payload: &[u8]) -> Vec<u8> {
        if !self.plain {
            return vec![];
        }
        self.seen.lock().unwrap().push(payload.to_vec());
        mark(&self.salt, payload)
    }
    async fn try_sign(&self, payload: &[u8]) -> AResult<Vec<u8>> {
        if self.plain {
            return Ok(self.sign(payload).await);
        }
        self.seen.lock().unwrap().push(payload.to_vec());
        Ok(mark(&self.salt, payload))
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    kind: u8,
    key: u8,
    /// None: the library's signer
    own: Option<(Option<String>, bool, Vec<u8>, bool)>,
    did: String,
    /// The verification method's part after the DID.
    rest: String,
    /// The key found for the verification method.
    resolved: Option<u8>,
    /// Keys found for other methods.
    others: Vec<(String, u8)>,
    /// Further members of the keys found.
    members: Map<String, Json>,
    /// The caller's signer says the same of its key.
    known: bool,
    chain: Vec<CertPlan>,
    requests: Vec<(String, Map<String, Json>, u8)>,
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    let own = (
        prop_oneof![8 => select(vec!["ES256", "ES384", "EdDSA", "x", ""]).prop_map(|s| Some(s.to_string())), 2 => gen::text().prop_map(Some), 1 => Just(None)],
        prop::bool::weighted(0.9),
        vec(any::<u8>(), 0..70),
        any::<bool>(),
    );
    (
        0u8..3,
        0u8..4,
        option::weighted(0.5, own),
        (
            prop_oneof![4 => select(vec!["did:example:123", "did:web:verifier.example", "did:web:localhost%3A8080:a:b", "did:key:zABC", "did:x:é"]).prop_map(String::from), 1 => gen::text()],
            prop_oneof![6 => select(vec!["#0", "#key-1", "#", "#a/b?c"]).prop_map(String::from), 1 => Just(String::new()), 1 => select(vec!["0", "?a=b", "/x", "%23k"]).prop_map(String::from)],
        ),
        prop_oneof![8 => Just(Some(255u8)), 2 => (0u8..4).prop_map(Some), 1 => Just(None)],
        (
            vec((gen::ident(), 0u8..4), 0..2),
            prop_oneof![
                5 => Just(Map::new()),
                // the key identifier is the verification method
                1 => Just(Map::from_iter([("kid".to_string(), json!("@vm"))])),
                // part of another key
                1 => (0u8..5, select(vec!["x", "y", "crv"])).prop_map(|(k, m)| {
                    let v = if m == "crv" { json!(["P-384", "secp256k1", "P-521", "p-256", ""][k as usize]) } else { public_jwk_json(4 + k % 2)[m].clone() };
                    Map::from_iter([(m.to_string(), v)])
                }),
                1 => (select(vec!["kid", "alg", "use", "key_ops"]), gen::word()).prop_map(|(k, w)| {
                    let v = match k { "alg" => json!("ES256"), "use" => json!("sig"), "key_ops" => json!(["verify"]), _ => json!(w) };
                    Map::from_iter([(k.to_string(), v)])
                }),
            ],
        ),
        (seq(cert_plan(), 0..4), option::weighted(0.3, any::<(u8, u8)>()), any::<bool>(), prop::bool::weighted(0.2)),
        seq((gen::text(), gen::extension_params(), 0u8..4), 1..3),
    )
        .prop_map(|(kind, key, own, (did, rest), resolved, (others, mut members), (mut chain, again, known, other_kind), requests)| {
            let vm = format!("{}{rest}", did.replace('#', ""));
            if members.get("kid") == Some(&json!("@vm")) {
                members.insert("kid".into(), json!(vm));
            }
            if let (Some((from, to)), false) = (again, chain.is_empty()) {
                // a certificate that comes twice
                let c = chain[from as usize % chain.len()].clone();
                chain.insert(to as usize % (chain.len() + 1), c);
            }
            let key = if own.is_some() && other_kind { SECP256K1 + key % 2 } else { key };
            Plan {
            kind,
            key,
            own,
            did: did.replace('#', ""),
            rest,
            resolved: resolved.map(|r| if r == 255 { key } else { r }),
            others,
            members,
            known,
            chain,
            requests,
        }})
        .boxed()
}

fn request(c: &str, r: &(String, Map<String, Json>, u8)) -> Json {
    let mut o = r.1.clone();
    for (k, v) in [("client_id", c), ("response_type", "vp_token"), ("nonce", &r.0)] {
        o.insert(k.into(), json!(v));
    }
    let mode = ["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"][r.2 as usize % 4];
    o.insert("response_mode".into(), json!(mode));
    if r.2 % 4 < 2 {
        o.insert("response_uri".into(), json!("https://v.example/r"));
    } else {
        o.remove("response_uri");
    }
    o.remove("redirect_uri");
    Json::Object(o)
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    // the library's signer has keys of one kind
    let key = if p.own.is_none() && p.key >= SECP256K1 { p.key - SECP256K1 } else { p.key };
    let vm = format!("{}{}", p.did, p.rest);
    let own = p.own.as_ref().map(|(alg, jwk, salt, plain)| Arc::new(OwnSigner { key, alg: alg.clone(), jwk: *jwk, members: if p.known { p.members.clone() } else { Map::new() }, salt: salt.clone(), plain: *plain, seen: Default::default() }));
    let s: Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync> = match &own {
        Some(o) => o.clone(),
        None => signer(key),
    };
    let has_jwk = p.own.as_ref().map_or(true, |o| o.1);
    let alg = p.own.as_ref().map_or(Some("ES256"), |o| o.0.as_deref());
    let certs: Vec<_> = p.chain.iter().map(CertPlan::build).collect();
    let (made, want, prefix): (anyhow::Result<Arc<dyn Client + Send + Sync>>, Option<Option<String>>, &str) = match p.kind {
        0 => {
            let mut keys: Vec<(String, u8)> = p.others.iter().map(|(k, i)| (format!("{}#{k}", p.did), *i)).filter(|(k, _)| *k != vm).collect();
            keys.extend(p.resolved.map(|k| (vm.clone(), k)));
            let mut r = TableResolver::new(keys);
            r.extra = p.members.clone();
            let c = run!(DIDClient::new(vm.clone(), s, r));
            let good = p.rest.contains('#') && p.resolved.is_some_and(|k| k == key) && has_jwk;
            // whether a key found with further members is the signer's is open
            let known = p.known && p.own.is_some();
            let other = p.members.iter().any(|(m, v)| public_jwk_json(key).get(m).is_some_and(|x| x != v));
            let want = if good && !p.members.is_empty() && !known && !other { None } else { Some((good && (known || !other)).then(|| p.did.clone())) };
            (c.map(|c| Arc::new(c) as _), want, "decentralized_identifier")
        }
        1 => {
            let want = match p.chain.first() {
                None => Some(None),
                // whether the names of a certificate with an unreadable extension count is open
                Some(c) if c.broken_san => None,
                Some(c) => Some(c.dns_names().first().cloned()),
            };
            (X509SanDnsClient::new(certs, s).map(|c| Arc::new(c) as _), want, "x509_san_dns")
        }
        _ => (X509HashClient::new(certs, s).map(|c| Arc::new(c) as _), Some(p.chain.first().map(|c| b64u(sha(c.der())))), "x509_hash"),
    };
    let c = match (made, want) {
        (Ok(c), Some(Some(id))) => {
            ensure_eq!(c.id().0, format!("{prefix}:{id}"), "client identifier");
            c
        }
        (Ok(c), None) => c,
        (Err(_), Some(None)) => {
            obs.label("refused");
            obs.nontrivial();
            return Ok(());
        }
        (Err(_), None) => return Ok(()),
        (Ok(c), Some(None)) => fail!("a client {} was made", c.id().0),
        (Err(e), Some(Some(id))) => fail!("the client {prefix}:{id} was refused: {e:#}"),
    };
    ensure_eq!(&*c.prefix(), prefix, "prefix");
    obs.nontrivial();
    obs.label(prefix);
    for r in &p.requests {
        let j = request(&c.id().0, r);
        let body = aro(j.clone()).map_err(|e| format!("machinery: {e:#}"))?;
        let got = run!(c.generate_request_object_jwt(&body));
        let (jwt, alg) = match (got, alg) {
            (Ok(t), Some(a)) => (t, a),
            (Err(_), None) => {
                obs.label("no algorithm");
                continue;
            }
            (Ok(t), None) => fail!("a signer without an algorithm gave {t}"),
            (Err(e), Some(_)) => fail!("not signed: {e:#}"),
        };
        let parts: Vec<&str> = jwt.split('.').collect();
        ensure_eq!(parts.len(), 3, "parts of {jwt}");
        let header: Json = unb64u(parts[0]).and_then(|b| serde_json::from_slice(&b).ok()).ok_or("the header is no JSON")?;
        let payload: Json = unb64u(parts[1]).and_then(|b| serde_json::from_slice(&b).ok()).ok_or("the payload is no JSON")?;
        let sig = unb64u(parts[2]).ok_or("the signature is not base64url")?;
        ensure_eq!(payload, j, "payload");
        ensure_eq!(header["typ"], json!(TYP), "type");
        ensure_eq!(header["alg"], json!(alg), "algorithm");
        if p.kind == 0 {
            ensure_eq!(header["kid"], json!(vm), "key identifier");
        } else {
            use base64::prelude::*;
            let chain: Vec<String> = p.chain.iter().map(|c| BASE64_STANDARD.encode(c.der())).collect();
            ensure_eq!(header["x5c"], json!(chain), "certificate chain");
        }
        let signed = format!("{}.{}", parts[0], parts[1]).into_bytes();
        match &own {
            Some(o) => {
                ensure!(o.seen.lock().unwrap().contains(&signed), "the signer was not asked to sign this header and payload");
                ensure_eq!(sig, mark(&o.salt, &signed), "signature");
            }
            None => ensure!(verify_jws(signing_key(key).verifying_key(), &jwt), "the signature does not verify: {jwt}"),
        }
    }
    Ok(())
}

// the library's signer
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Bytes {
    key: u8,
    payloads: Vec<Vec<u8>>,
    flip: u16,
}

fn bytes(_: Tier) -> BoxedStrategy<Bytes> {
    (0u8..SECP256K1, vec(vec(any::<u8>(), 0..200), 1..3), any::<u16>()).prop_map(|(key, payloads, flip)| Bytes { key, payloads, flip }).boxed()
}

fn test_signer(p: &Bytes, obs: &mut Obs) -> Check {
    use p256::ecdsa::{signature::Verifier, Signature};
    obs.nontrivial();
    let s = P256Signer::new(signing_key(p.key)).map_err(|e| format!("{e:#}"))?;
    let vk: VerifyingKey = *signing_key(p.key).verifying_key();
    ensure_eq!(RequestSigner::alg(&s).map_err(|e| format!("{e:#}"))?, "ES256", "algorithm");
    ensure_eq!(RequestSigner::jwk(&s).map_err(|e| format!("{e:#}"))?, public_jwk(p.key), "public key");
    ensure_eq!(*s.jwk(), public_jwk(p.key), "public key");
    let j = serde_json::to_value(s.jwk()).map_err(|e| e.to_string())?;
    ensure!(j.get("d").is_none(), "the public key {j} holds the private one");
    let info = run!(s.fetch_info()).map_err(|e| e.to_string())?;
    ensure_eq!((info.algorithm, info.key_id), (Algorithm::ES256, None), "signing information");
    for b in &p.payloads {
        for sig in [run!(RequestSigner::sign(&s, b)), run!(s.try_sign(b)).map_err(|e| format!("{e:#}"))?, run!(s.sign_bytes(b)).map_err(|e| e.to_string())?] {
            ensure_eq!(sig.len(), 64, "length of the signature");
            let sig = Signature::from_slice(&sig).map_err(|e| e.to_string())?;
            ensure!(vk.verify(b, &sig).is_ok(), "the signature does not verify");
            let mut other = b.clone();
            if other.is_empty() {
                other.push(0);
            } else {
                let i = p.flip as usize % (other.len() * 8);
                other[i / 8] ^= 1 << (i % 8);
            }
            ensure!(vk.verify(&other, &sig).is_err(), "the signature is also that of other bytes");
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        level: "exploration",
        assumptions: &["the DNS names of a leaf one of whose name extensions cannot be read are not judged", "a verification method contains one '#'"],
        subs: vec![
            Box::new(SubCheck {
                name: "clients",
                rule: "a kind of client, what it is made from (also not enough), a signer of the library or of the caller's own, and requests; non-trivial: a client is made, or rightly refused",
                quick: 4_000,
                thorough: 150_000,
                strat,
                examples: no_examples,
                test,
            }),
            Box::new(SubCheck {
                name: "signer",
                rule: "a key and byte strings; non-trivial: all",
                quick: 1_500,
                thorough: 60_000,
                strat: bytes,
                examples: no_examples,
                test: test_signer,
            }),
        ],
    }
}
