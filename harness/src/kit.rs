//! Deterministic keys and certificates, mock collaborators, and an independent JWS implementation.
#![allow(dead_code)]

use std::{
    borrow::Cow,
    sync::{Arc, Mutex},
};

use anyhow::{bail, Result};
use async_trait::async_trait;
use base64::prelude::*;
use http::{Request, Response};
use openid4vp::{
    core::{
        authorization_request::{
            verification::{did, verifier::P256Verifier, x509_hash, x509_san, RequestVerifier},
            AuthorizationRequestObject,
        },
        metadata::{
            parameters::wallet::{AuthorizationEndpoint, VpFormatsSupported},
            WalletMetadata,
        },
        object::UntypedObject,
        util::AsyncHttpClient,
    },
    verifier::request_signer::P256Signer,
    wallet::Wallet,
};
use p256::ecdsa::{
    signature::{Signer as _, Verifier as _},
    Signature, SigningKey, VerifyingKey,
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};
use sha2::{Digest, Sha256};
use ssi_jwk::{JWKResolver, JWK};
use x509_cert::{
    der::{
        asn1::{BitString, Ia5String, GeneralizedTime, OctetString, UtcTime},
        Decode, Encode,
    },
    ext::{
        pkix::{name::GeneralName, SubjectAltName},
        Extension,
    },
    name::Name,
    serial_number::SerialNumber,
    spki::{AlgorithmIdentifierOwned, ObjectIdentifier, SubjectPublicKeyInfoOwned},
    time::{Time, Validity},
    Certificate, TbsCertificate, Version,
};

pub const TYP: &str = "oauth-authz-req+jwt";

// ---------------------------------------------------------------------------------------------
// keys

pub fn signing_key(i: u8) -> SigningKey {
    let d = Sha256::digest(format!("vp-check key {i}"));
    SigningKey::from_slice(&d).expect("scalar")
}

/// Keys of other kinds than P-256.
pub const SECP256K1: u8 = 200;
pub const ED25519: u8 = 201;

fn k256_key() -> k256::ecdsa::SigningKey {
    k256::ecdsa::SigningKey::from_slice(&Sha256::digest("vp-check secp256k1")).expect("scalar")
}

fn ed_key() -> ed25519_dalek::SigningKey {
    ed25519_dalek::SigningKey::from_bytes(&Sha256::digest("vp-check ed25519").into())
}

/// The algorithm of a key.
pub fn key_alg(i: u8) -> &'static str {
    match i {
        SECP256K1 => "ES256K",
        ED25519 => "EdDSA",
        _ => "ES256",
    }
}

/// The signature of a key of any kind.
pub fn raw_sign(i: u8, message: &[u8]) -> Vec<u8> {
    match i {
        SECP256K1 => {
            let s: k256::ecdsa::Signature = k256_key().sign(message);
            s.to_vec()
        }
        ED25519 => ed_key().sign(message).to_vec(),
        _ => {
            let s: Signature = signing_key(i).sign(message);
            s.to_vec()
        }
    }
}

/// Reference verification of a compact JWS under a key of any kind.
pub fn verify_jws_by(i: u8, jws: &str) -> bool {
    let parts: Vec<&str> = jws.split('.').collect();
    let [h, p, s] = parts[..] else { return false };
    let Some(sig) = unb64u(s) else { return false };
    let message = format!("{h}.{p}");
    match i {
        SECP256K1 => k256::ecdsa::Signature::from_slice(&sig).is_ok_and(|s| k256_key().verifying_key().verify(message.as_bytes(), &s).is_ok()),
        ED25519 => ed25519_dalek::Signature::from_slice(&sig).is_ok_and(|s| ed_key().verifying_key().verify(message.as_bytes(), &s).is_ok()),
        _ => verify_jws(signing_key(i).verifying_key(), jws),
    }
}

pub fn signer(i: u8) -> Arc<P256Signer> {
    Arc::new(P256Signer::new(signing_key(i)).expect("signer"))
}

/// The public JWK, computed from the curve point and not by the code under test.
pub fn public_jwk_json(i: u8) -> Json {
    match i {
        SECP256K1 => {
            let p = k256_key().verifying_key().to_encoded_point(false);
            return json!({
                "kty": "EC", "crv": "secp256k1",
                "x": b64u(p.x().unwrap()), "y": b64u(p.y().unwrap()),
            });
        }
        ED25519 => return json!({"kty": "OKP", "crv": "Ed25519", "x": b64u(ed_key().verifying_key().to_bytes())}),
        _ => {}
    }
    let p = signing_key(i).verifying_key().to_encoded_point(false);
    json!({
        "kty": "EC", "crv": "P-256",
        "x": b64u(p.x().unwrap()), "y": b64u(p.y().unwrap()),
    })
}

pub fn public_jwk(i: u8) -> JWK {
    serde_json::from_value(public_jwk_json(i)).expect("jwk")
}

pub fn b64u(b: impl AsRef<[u8]>) -> String {
    BASE64_URL_SAFE_NO_PAD.encode(b)
}

pub fn unb64u(s: &str) -> Option<Vec<u8>> {
    BASE64_URL_SAFE_NO_PAD.decode(s).ok()
}

pub fn sha(b: impl AsRef<[u8]>) -> Vec<u8> {
    Sha256::digest(b.as_ref()).to_vec()
}

// ---------------------------------------------------------------------------------------------
// JWS, independent of the code under test

pub fn sign_jws(key: u8, header: &Json, payload: &Json) -> String {
    sign_jws_raw(key, &header.to_string(), payload.to_string().as_bytes())
}

pub fn sign_jws_raw(key: u8, header: &str, payload: &[u8]) -> String {
    let input = format!("{}.{}", b64u(header), b64u(payload));
    format!("{input}.{}", b64u(raw_sign(key, input.as_bytes())))
}

/// Reference verification of a compact JWS under a known P-256 key.
pub fn verify_jws(key: &VerifyingKey, jws: &str) -> bool {
    let parts: Vec<&str> = jws.split('.').collect();
    let [h, p, s] = parts[..] else { return false };
    let Some(sig) = unb64u(s) else { return false };
    let Ok(sig) = Signature::from_slice(&sig) else {
        return false;
    };
    key.verify(format!("{h}.{p}").as_bytes(), &sig).is_ok()
}

pub fn jws_header(jws: &str) -> Option<Map<String, Json>> {
    let h = jws.split('.').next()?;
    serde_json::from_slice(&unb64u(h)?).ok()
}

pub fn jws_payload(jws: &str) -> Option<Json> {
    let p = jws.split('.').nth(1)?;
    serde_json::from_slice(&unb64u(p)?).ok()
}

// ---------------------------------------------------------------------------------------------
// certificates

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum San {
    Dns(String),
    Uri(String),
    Mail(String),
    Ip([u8; 4]),
    /// A directory name whose common name is this text.
    Dir(String),
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct CertPlan {
    pub key: u8,
    pub issuer_key: u8,
    pub serial: u16,
    pub cn: String,
    /// One subject-alternative-name extension for each entry.
    pub sans: Vec<Vec<San>>,
    /// A first SAN extension whose content is not valid.
    pub broken_san: bool,
    /// An unrelated extension.
    pub other_ext: bool,
    /// Bits: 1 the alternative names are critical, 2 further extensions after them, 4 a large
    /// extension, 8 a large serial number, 16 it ends before it begins, 32 the issuer is the subject,
    /// 64 times after 2050, 128 no common name
    #[serde(default)]
    pub style: u8,
}

fn ascii(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii()).collect()
}

fn dn(cn: &str) -> Name {
    use std::str::FromStr;
    let safe: String = cn
        .chars()
        .filter(|c| c.is_ascii_alphanumeric() || matches!(c, '.' | '-' | '*' | '_'))
        .collect();
    Name::from_str(&format!("CN={}", if safe.is_empty() { "x" } else { &safe })).expect("name")
}

impl CertPlan {
    pub fn simple(key: u8, dns: &str) -> Self {
        CertPlan {
            key,
            issuer_key: key,
            serial: 1,
            cn: dns.to_string(),
            sans: vec![vec![San::Dns(dns.to_string())]],
            broken_san: false,
            other_ext: false,
            style: 0,
        }
    }

    pub fn build(&self) -> Certificate {
        let alg = AlgorithmIdentifierOwned {
            oid: ObjectIdentifier::new_unwrap("1.2.840.10045.4.3.2"),
            parameters: None,
        };
        let spki = SubjectPublicKeyInfoOwned::from_key(*signing_key(self.key).verifying_key())
            .expect("spki");
        let mut exts = vec![];
        let san_oid = ObjectIdentifier::new_unwrap("2.5.29.17");
        if self.other_ext {
            exts.push(Extension {
                extn_id: ObjectIdentifier::new_unwrap("2.5.29.19"),
                critical: true,
                extn_value: OctetString::new([0x30, 0x00]).unwrap(),
            });
        }
        if self.broken_san {
            exts.push(Extension {
                extn_id: san_oid,
                critical: false,
                extn_value: OctetString::new([0x01, 0x02, 0x03]).unwrap(),
            });
        }
        for san in &self.sans {
            let names: Vec<GeneralName> = san
                .iter()
                .map(|s| match s {
                    San::Dns(d) => GeneralName::DnsName(Ia5String::new(&ascii(d)).unwrap()),
                    San::Uri(d) => {
                        GeneralName::UniformResourceIdentifier(Ia5String::new(&ascii(d)).unwrap())
                    }
                    San::Mail(d) => GeneralName::Rfc822Name(Ia5String::new(&ascii(d)).unwrap()),
                    San::Ip(b) => GeneralName::IpAddress(OctetString::new(*b).unwrap()),
                    San::Dir(d) => GeneralName::DirectoryName(dn(d)),
                })
                .collect();
            exts.push(Extension {
                extn_id: san_oid,
                critical: self.style & 1 != 0,
                extn_value: OctetString::new(SubjectAltName(names).to_der().unwrap()).unwrap(),
            });
        }
        if self.style & 2 != 0 {
            // key usage: digital signature; extended key usage: mdoc reader authentication
            exts.push(Extension {
                extn_id: ObjectIdentifier::new_unwrap("2.5.29.15"),
                critical: true,
                extn_value: OctetString::new([0x03, 0x02, 0x07, 0x80]).unwrap(),
            });
            exts.push(Extension {
                extn_id: ObjectIdentifier::new_unwrap("2.5.29.37"),
                critical: false,
                extn_value: OctetString::new([0x30, 0x09, 0x06, 0x07, 0x28, 0x81, 0x8c, 0x5d, 0x05, 0x01, 0x06]).unwrap(),
            });
        }
        if self.style & 4 != 0 {
            exts.push(Extension {
                extn_id: ObjectIdentifier::new_unwrap("1.3.6.1.4.1.55555.1"),
                critical: false,
                extn_value: OctetString::new(vec![0u8; 7000]).unwrap(),
            });
        }
        let time = |secs: u64| {
            let t = std::time::Duration::from_secs(secs);
            if self.style & 64 != 0 {
                Time::GeneralTime(GeneralizedTime::from_unix_duration(t + std::time::Duration::from_secs(50_000_000_000)).unwrap())
            } else {
                Time::UtcTime(UtcTime::from_unix_duration(t).unwrap())
            }
        };
        let (mut not_before, mut not_after) = (time(1_600_000_000), time(2_500_000_000));
        if self.style & 16 != 0 {
            std::mem::swap(&mut not_before, &mut not_after);
        }
        let subject = if self.style & 128 != 0 { Name::default() } else { dn(&self.cn) };
        let tbs = TbsCertificate {
            version: Version::V3,
            serial_number: if self.style & 8 != 0 { SerialNumber::new(&[0x7f; 19]).unwrap() } else { SerialNumber::from(self.serial as u64 + 1) },
            signature: alg.clone(),
            issuer: if self.style & 32 != 0 { subject.clone() } else { dn(&format!("issuer{}", self.issuer_key)) },
            validity: Validity { not_before, not_after },
            subject,
            subject_public_key_info: spki,
            issuer_unique_id: None,
            subject_unique_id: None,
            extensions: if exts.is_empty() { None } else { Some(exts) },
        };
        let sig: Signature = signing_key(self.issuer_key).sign(&tbs.to_der().unwrap());
        Certificate {
            tbs_certificate: tbs,
            signature_algorithm: alg,
            signature: BitString::from_bytes(sig.to_der().as_bytes()).unwrap(),
        }
    }

    pub fn der(&self) -> Vec<u8> {
        let der = self.build().to_der().expect("der");
        debug_assert!(Certificate::from_der(&der).is_ok());
        der
    }

    /// The DNS names, in order, of the extensions that can be read.
    pub fn dns_names(&self) -> Vec<String> {
        self.sans
            .iter()
            .flatten()
            .filter_map(|s| match s {
                San::Dns(d) => Some(ascii(d)),
                _ => None,
            })
            .collect()
    }
}

// ---------------------------------------------------------------------------------------------
// HTTP

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum HttpAnswer {
    TransportError,
    Answer { status: u16, body: Vec<u8> },
}

#[derive(Debug, Clone, PartialEq)]
pub struct SeenRequest {
    pub method: String,
    pub uri: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl SeenRequest {
    pub fn of(r: &Request<Vec<u8>>) -> Self {
        SeenRequest {
            method: r.method().to_string(),
            uri: r.uri().to_string(),
            headers: r
                .headers()
                .iter()
                .map(|(k, v)| {
                    (
                        k.to_string(),
                        String::from_utf8_lossy(v.as_bytes()).into_owned(),
                    )
                })
                .collect(),
            body: r.body().clone(),
        }
    }

    pub fn header(&self, name: &str) -> Vec<&str> {
        self.headers
            .iter()
            .filter(|(k, _)| k.eq_ignore_ascii_case(name))
            .map(|(_, v)| v.as_str())
            .collect()
    }
}

#[derive(Debug, Clone)]
pub struct MockHttp {
    pub seen: Arc<Mutex<Vec<SeenRequest>>>,
    pub answer: HttpAnswer,
    /// Headers of the answer.
    pub headers: Vec<(String, String)>,
}

impl MockHttp {
    pub fn new(answer: HttpAnswer) -> Self {
        MockHttp {
            seen: Default::default(),
            answer,
            headers: vec![],
        }
    }
    pub fn with_headers(mut self, headers: &[(String, String)]) -> Self {
        self.headers = headers.to_vec();
        self
    }
    pub fn none() -> Self {
        Self::new(HttpAnswer::TransportError)
    }
    pub fn requests(&self) -> Vec<SeenRequest> {
        self.seen.lock().unwrap().clone()
    }
}

#[async_trait]
impl AsyncHttpClient for MockHttp {
    async fn execute(&self, request: Request<Vec<u8>>) -> Result<Response<Vec<u8>>> {
        self.seen.lock().unwrap().push(SeenRequest::of(&request));
        match &self.answer {
            HttpAnswer::TransportError => bail!("mock transport error"),
            HttpAnswer::Answer { status, body } => {
                let mut b = Response::builder().status(*status);
                for (k, v) in &self.headers {
                    b = match k.as_str() {
                        ":version" => b.version(match v.as_str() {
                            "1.0" => http::Version::HTTP_10,
                            "2" => http::Version::HTTP_2,
                            _ => http::Version::HTTP_3,
                        }),
                        _ => b.header(k.as_str(), v.as_str()),
                    };
                }
                Ok(b.body(body.clone()).expect("response"))
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// DID resolution

/// Resolves key identifiers from a table; records what was asked.
#[derive(Debug, Clone, Default)]
pub struct TableResolver {
    pub keys: Vec<(String, u8)>,
    /// Further members of the keys.
    pub extra: serde_json::Map<String, Json>,
    pub asked: Arc<Mutex<Vec<Option<String>>>>,
}

impl TableResolver {
    pub fn new(keys: Vec<(String, u8)>) -> Self {
        TableResolver {
            keys,
            extra: Default::default(),
            asked: Default::default(),
        }
    }
    pub fn lookup(&self, kid: &str) -> Option<u8> {
        self.keys.iter().find(|(k, _)| k == kid).map(|(_, i)| *i)
    }
}

impl JWKResolver for TableResolver {
    async fn fetch_public_jwk(
        &'_ self,
        key_id: Option<&str>,
    ) -> std::result::Result<Cow<'_, JWK>, ssi_claims::ProofValidationError> {
        self.asked
            .lock()
            .unwrap()
            .push(key_id.map(str::to_string));
        match key_id.and_then(|k| self.lookup(k)) {
            Some(i) if self.extra.is_empty() => Ok(Cow::Owned(public_jwk(i))),
            Some(i) => {
                let mut j = serde_json::to_value(public_jwk(i)).expect("key");
                j.as_object_mut().expect("key").extend(self.extra.clone());
                Ok(Cow::Owned(serde_json::from_value(j).expect("key")))
            }
            None => Err(ssi_claims::ProofValidationError::UnknownKey),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// wallets

pub fn uo(j: Json) -> UntypedObject {
    serde_json::from_value(j).expect("object")
}

pub fn metadata(mut j: Json) -> WalletMetadata {
    let o = j.as_object_mut().expect("object");
    o.entry("authorization_endpoint")
        .or_insert("openid4vp:".into());
    o.entry("vp_formats_supported").or_insert(json!({}));
    serde_json::from_value(j).expect("wallet metadata")
}

pub fn metadata_at(endpoint: url::Url, other: Json) -> WalletMetadata {
    WalletMetadata::new(
        AuthorizationEndpoint(endpoint),
        VpFormatsSupported::default(),
        Some(uo(other)),
    )
}

#[derive(Debug, Clone, PartialEq)]
pub struct Call {
    pub method: &'static str,
    pub prefix: Option<String>,
    pub request: Json,
    pub jwt: Option<String>,
}

/// A wallet whose verifications record what they get and answer as planned.
pub struct RecordingWallet<H> {
    pub metadata: WalletMetadata,
    pub http: H,
    pub accept: bool,
    pub calls: Mutex<Vec<Call>>,
}

impl<H> RecordingWallet<H> {
    pub fn new(metadata: WalletMetadata, http: H, accept: bool) -> Self {
        RecordingWallet {
            metadata,
            http,
            accept,
            calls: Default::default(),
        }
    }
    fn record(
        &self,
        method: &'static str,
        prefix: Option<&str>,
        r: &AuthorizationRequestObject,
        jwt: Option<String>,
    ) -> Result<()> {
        self.calls.lock().unwrap().push(Call {
            method,
            prefix: prefix.map(str::to_string),
            request: serde_json::to_value(r)?,
            jwt,
        });
        if self.accept {
            Ok(())
        } else {
            bail!("verification refused")
        }
    }
    pub fn seen(&self) -> Vec<Call> {
        self.calls.lock().unwrap().clone()
    }
}

#[async_trait]
impl<H: Send + Sync> RequestVerifier for RecordingWallet<H> {
    async fn decentralized_identifier(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Result<(), anyhow::Error> {
        self.record("decentralized_identifier", None, r, j)
    }
    async fn openid_federation(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Result<(), anyhow::Error> {
        self.record("openid_federation", None, r, j)
    }
    async fn preregistered(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Result<(), anyhow::Error> {
        self.record("preregistered", None, r, j)
    }
    async fn redirect_uri(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Result<(), anyhow::Error> {
        self.record("redirect_uri", None, r, j)
    }
    async fn verifier_attestation(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Result<(), anyhow::Error> {
        self.record("verifier_attestation", None, r, j)
    }
    async fn x509_san_dns(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Result<(), anyhow::Error> {
        self.record("x509_san_dns", None, r, j)
    }
    async fn x509_hash(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Result<(), anyhow::Error> {
        self.record("x509_hash", None, r, j)
    }
    async fn other(&self, prefix: &str, r: &AuthorizationRequestObject, j: Option<String>) -> Result<(), anyhow::Error> {
        self.record("other", Some(prefix), r, j)
    }
}

impl<H: AsyncHttpClient + Send + Sync> Wallet for RecordingWallet<H> {
    type HttpClient = H;
    fn metadata(&self) -> &WalletMetadata {
        &self.metadata
    }
    fn http_client(&self) -> &H {
        &self.http
    }
}

/// A wallet that uses the verification this library provides.
pub struct LibWallet<H> {
    pub metadata: WalletMetadata,
    pub http: H,
    pub resolver: TableResolver,
    pub trusted_dids: Option<Vec<String>>,
}

#[async_trait]
impl<H: Send + Sync> RequestVerifier for LibWallet<H> {
    async fn decentralized_identifier(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Result<(), anyhow::Error> {
        let Some(j) = j else { bail!("not signed") };
        did::verify_with_resolver(
            &self.metadata,
            r,
            j,
            self.trusted_dids.as_deref(),
            &self.resolver,
        )
        .await
    }
    async fn x509_san_dns(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Result<(), anyhow::Error> {
        let Some(j) = j else { bail!("not signed") };
        x509_san::validate::<P256Verifier>(&self.metadata, r, j, None)
    }
    async fn x509_hash(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Result<(), anyhow::Error> {
        let Some(j) = j else { bail!("not signed") };
        x509_hash::validate::<P256Verifier>(&self.metadata, r, j, None)
    }
}

impl<H: AsyncHttpClient + Send + Sync> Wallet for LibWallet<H> {
    type HttpClient = H;
    fn metadata(&self) -> &WalletMetadata {
        &self.metadata
    }
    fn http_client(&self) -> &H {
        &self.http
    }
}

pub fn aro(j: Json) -> Result<AuthorizationRequestObject> {
    let o: UntypedObject = serde_json::from_value(j)?;
    o.try_into()
}
