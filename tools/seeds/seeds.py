"""Planted bugs: each entry becomes /verif/seeded/<id>/ (see gen.py)."""
AR = "src/core/authorization_request/mod.rs"
AP = "src/core/authorization_request/parameters.rs"
V = "src/core/authorization_request/verification/"
MD = "src/core/metadata/mod.rs"
MV = "src/core/metadata/parameters/verifier.rs"
MW = "src/core/metadata/parameters/wallet.rs"
CF = "src/core/credential_format/mod.rs"
DQ = "src/core/dcql_query.rs"
ISO = "src/core/iso_18013_7/mod.rs"
OBJ = "src/core/object/mod.rs"
RESP = "src/core/response/mod.rs"
RP = "src/core/response/parameters.rs"
UT = "src/core/util/mod.rs"
NEV = "src/utils.rs"
CL = "src/verifier/client.rs"
VER = "src/verifier/mod.rs"
RB = "src/verifier/request_builder.rs"
SS = "src/verifier/session.rs"
W = "src/wallet.rs"
FE = "openid4vp-frontend/src/lib.rs"

SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


# ---- what several demonstrations share -------------------------------------------------------
WALLET = r'''
#![allow(dead_code, unused_imports)]
use anyhow::{bail, Result};
use async_trait::async_trait;
use base64::prelude::*;
use http::{Request, Response};
use openid4vp::core::{
    authorization_request::{verification::RequestVerifier, AuthorizationRequest, AuthorizationRequestObject, RequestIndirection},
    metadata::WalletMetadata,
    response::{parameters::*, *},
    util::AsyncHttpClient,
};
use openid4vp::wallet::Wallet;
use serde_json::{json, Value as Json};
use std::sync::Mutex;

/// Answers every request with the same status and body, and keeps the requests.
struct Http {
    status: u16,
    body: Vec<u8>,
    seen: Mutex<Vec<Request<Vec<u8>>>>,
}

#[async_trait]
impl AsyncHttpClient for Http {
    async fn execute(&self, request: Request<Vec<u8>>) -> Result<Response<Vec<u8>>> {
        self.seen.lock().unwrap().push(request);
        Ok(Response::builder().status(self.status).body(self.body.clone())?)
    }
}

/// A wallet that accepts every client whose kind it supports, and keeps which verification ran.
struct TestWallet {
    metadata: WalletMetadata,
    http: Http,
    ran: Mutex<Vec<&'static str>>,
}

impl TestWallet {
    fn new(metadata: Json, status: u16, body: impl Into<Vec<u8>>) -> Self {
        let mut all = json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {"jwt_vc_json": {"alg_values": ["ES256"]}}});
        all.as_object_mut().unwrap().extend(metadata.as_object().unwrap().clone());
        Self {
            metadata: serde_json::from_value(all).unwrap(),
            http: Http { status, body: body.into(), seen: Default::default() },
            ran: Default::default(),
        }
    }
    fn ran(&self, what: &'static str) -> Result<()> {
        self.ran.lock().unwrap().push(what);
        Ok(())
    }
}

impl Wallet for TestWallet {
    type HttpClient = Http;
    fn metadata(&self) -> &WalletMetadata {
        &self.metadata
    }
    fn http_client(&self) -> &Http {
        &self.http
    }
}

#[async_trait]
impl RequestVerifier for TestWallet {
    async fn decentralized_identifier(&self, _: &AuthorizationRequestObject, _: Option<String>) -> Result<()> {
        self.ran("decentralized_identifier")
    }
    async fn preregistered(&self, _: &AuthorizationRequestObject, _: Option<String>) -> Result<()> {
        self.ran("preregistered")
    }
    async fn redirect_uri(&self, _: &AuthorizationRequestObject, _: Option<String>) -> Result<()> {
        self.ran("redirect_uri")
    }
    async fn other(&self, _: &str, _: &AuthorizationRequestObject, _: Option<String>) -> Result<()> {
        self.ran("other")
    }
}

fn jwt(header: Json, payload: Json) -> String {
    let part = |v: &Json| BASE64_URL_SAFE_NO_PAD.encode(serde_json::to_vec(v).unwrap());
    format!("{}.{}.{}", part(&header), part(&payload), BASE64_URL_SAFE_NO_PAD.encode([7u8; 64]))
}

fn request_jwt(payload: Json) -> String {
    jwt(json!({"alg": "ES256", "typ": "oauth-authz-req+jwt"}), payload)
}

fn object(client_id: &str, more: Json) -> Json {
    let mut o = json!({
        "client_id": client_id, "response_type": "vp_token", "response_mode": "direct_post",
        "response_uri": "https://verifier.example.com/response", "nonce": "n-0S6_WzA2Mj",
        "client_metadata": {},
        "dcql_query": {"credentials": [{"id": "c", "format": "jwt_vc_json"}]},
    });
    o.as_object_mut().unwrap().extend(more.as_object().unwrap().clone());
    o
}

fn by_value(client_id: &str, request: String) -> AuthorizationRequest {
    AuthorizationRequest { client_id: Some(client_id.into()), request_indirection: RequestIndirection::ByValue { request } }
}

fn by_reference(client_id: &str) -> AuthorizationRequest {
    AuthorizationRequest {
        client_id: Some(client_id.into()),
        request_indirection: RequestIndirection::ByReference { request_uri: "https://verifier.example.com/request/1".parse().unwrap() },
    }
}
'''

VERIFIER = r'''
#![allow(dead_code, unused_imports)]
use async_trait::async_trait;
use openid4vp::core::{
    authorization_request::{parameters::*, AuthorizationRequestObject},
    credential_format::*,
    dcql_query::*,
    metadata::WalletMetadata,
    object::UntypedObject,
    response::{parameters::*, *},
};
use openid4vp::utils::NonEmptyVec;
use openid4vp::verifier::{client::*, request_signer::*, session::*, Verifier};
use serde_json::{json, Value as Json};
use std::sync::{Arc, Mutex};
use url::Url;
use uuid::Uuid;

/// A client that is not signed for real: the second part of its JWT is the request.
#[derive(Debug)]
struct TestClient(ClientId);

#[async_trait]
impl Client for TestClient {
    fn id(&self) -> &ClientId {
        &self.0
    }
    fn prefix(&self) -> ClientIdScheme {
        ClientIdScheme("x509_san_dns".into())
    }
    async fn generate_request_object_jwt(&self, body: &AuthorizationRequestObject) -> anyhow::Result<String> {
        Ok(format!("jwt:{}", serde_json::to_string(body)?))
    }
}

async fn verifier_with(store: Arc<dyn SessionStore + Send + Sync>, submission: &str, by_reference: Option<&str>) -> Verifier {
    let mut b = Verifier::builder()
        .with_client(Arc::new(TestClient(ClientId("x509_san_dns:verifier.example.com".into()))))
        .with_session_store(store)
        .with_submission_endpoint(submission.parse().unwrap());
    if let Some(at) = by_reference {
        b = b.by_reference(at.parse().unwrap());
    }
    b.build().await.unwrap()
}

fn wallet_metadata() -> WalletMetadata {
    serde_json::from_value(json!({
        "authorization_endpoint": "openid4vp:",
        "client_id_prefixes_supported": ["x509_san_dns"],
        "vp_formats_supported": {"jwt_vc_json": {"alg_values": ["ES256"]}},
    }))
    .unwrap()
}

fn query() -> DcqlQuery {
    DcqlQuery::new(NonEmptyVec::new(DcqlCredentialQuery::new("c".into(), ClaimFormatDesignation::JwtVcJson)))
}

fn response() -> AuthorizationResponse {
    AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(VpToken::with_credential("c", vec![VpTokenItem::from("p".to_string())])))
}
'''

CERTS = r'''
#![allow(dead_code, unused_imports)]
use base64::prelude::*;
use openid4vp::core::{
    authorization_request::{
        verification::{verifier::P256Verifier, x509_hash, x509_san},
        AuthorizationRequestObject,
    },
    metadata::WalletMetadata,
};
use p256::ecdsa::{signature::Signer, Signature, SigningKey};
use p256::pkcs8::EncodePrivateKey;
use serde_json::{json, Value as Json};
use sha2::{Digest, Sha256};

/// A self-signed certificate with these DNS names, as DER.
fn certificate(key: &SigningKey, names: &[&str]) -> Vec<u8> {
    let pem = key.to_pkcs8_pem(Default::default()).unwrap();
    let pair = rcgen::KeyPair::from_pem(&pem).unwrap();
    let mut params = rcgen::CertificateParams::new(names.iter().map(|n| n.to_string()).collect::<Vec<_>>()).unwrap();
    params.distinguished_name = rcgen::DistinguishedName::new();
    params.self_signed(&pair).unwrap().der().to_vec()
}

fn sign(key: &SigningKey, header: Json, payload: &Json) -> String {
    let part = |v: &Json| BASE64_URL_SAFE_NO_PAD.encode(serde_json::to_vec(v).unwrap());
    let input = format!("{}.{}", part(&header), part(payload));
    let signature: Signature = key.sign(input.as_bytes());
    format!("{input}.{}", BASE64_URL_SAFE_NO_PAD.encode(signature.to_vec()))
}

fn payload(client_id: &str) -> Json {
    json!({
        "client_id": client_id, "response_type": "vp_token", "response_mode": "direct_post",
        "response_uri": "https://verifier.example.com/response", "nonce": "n-0S6_WzA2Mj",
    })
}

fn metadata() -> WalletMetadata {
    serde_json::from_value(json!({
        "authorization_endpoint": "openid4vp:",
        "request_object_signing_alg_values_supported": ["ES256"],
        "vp_formats_supported": {"jwt_vc_json": {"alg_values": ["ES256"]}},
    }))
    .unwrap()
}

/// The header, payload and key of a request: is it accepted?
fn accepted(hash: bool, client_id: &str, key: &SigningKey, x5c: Json) -> bool {
    let payload = payload(client_id);
    let jwt = sign(key, json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": x5c}), &payload);
    let request: AuthorizationRequestObject = serde_json::from_value(payload).unwrap();
    let r = if hash {
        x509_hash::validate::<P256Verifier>(&metadata(), &request, jwt, None)
    } else {
        x509_san::validate::<P256Verifier>(&metadata(), &request, jwt, None)
    };
    println!("{client_id}: {r:?}");
    r.is_ok()
}

fn key(n: u8) -> SigningKey {
    SigningKey::from_slice(&[n; 32]).unwrap()
}
'''


# ---- C01 .. C06 ------------------------------------------------------------------------------
seed("c01-wildcard-client", "C01",
     "a verifier client made from a certificate whose first DNS name is a wildcard name",
     "The verifier names itself without the '*.', a name its own certificate does not have, so the honest wallet refuses every request it builds.",
     [(CL, "GeneralName::DnsName(dns) => Some(dns.to_string()),",
       "GeneralName::DnsName(dns) => {\n                    // A wildcard names a family of hosts: use the domain they share.\n                    Some(dns.as_str().trim_start_matches(\"*.\").to_string())\n                }")],
     CERTS + r'''
#[tokio::test]
async fn a_request_from_a_wildcard_certificate_is_accepted() {
    use openid4vp::verifier::{client::*, request_signer::P256Signer};
    use x509_cert::der::Decode;
    for name in ["verifier.example.com", "*.verifier.example.com"] {
        let der = certificate(&key(9), &[name]);
        let leaf = x509_cert::Certificate::from_der(&der).unwrap();
        let signer = std::sync::Arc::new(P256Signer::new(key(9)).unwrap());
        let client = X509SanDnsClient::new(vec![leaf], signer).unwrap();
        let request: AuthorizationRequestObject = serde_json::from_value(payload(&client.id().0)).unwrap();
        let jwt = client.generate_request_object_jwt(&request).await.unwrap();
        x509_san::validate::<P256Verifier>(&metadata(), &request, jwt, None).unwrap();
    }
}
''')

seed("c02-trusted-prefix", "C02",
     "a wallet with a list of trusted DIDs, and a client whose DID merely begins with a trusted one (did:web path below a trusted domain)",
     "Anyone who controls a DID that begins with a trusted DID is accepted as trusted.",
     [(V + "did.rs", "trusted_did == did)", "did.starts_with(trusted_did.as_str()))")],
     r'''
use base64::prelude::*;
use openid4vp::core::{
    authorization_request::{verification::did, AuthorizationRequestObject},
    metadata::WalletMetadata,
};
use p256::ecdsa::{signature::Signer, Signature, SigningKey};
use serde_json::{json, Value as Json};

async fn accepted(did: &str, trusted: &[String]) -> bool {
    let key = SigningKey::from_slice(&[5; 32]).unwrap();
    let public: p256::PublicKey = key.verifying_key().into();
    let jwk: ssi_jwk::JWK = serde_json::from_str(&public.to_jwk_string()).unwrap();
    let payload = json!({
        "client_id": format!("decentralized_identifier:{did}"), "response_type": "vp_token", "response_mode": "direct_post",
        "response_uri": "https://verifier.example.com/response", "nonce": "n-0S6_WzA2Mj",
    });
    let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "kid": format!("{did}#0")});
    let part = |v: &Json| BASE64_URL_SAFE_NO_PAD.encode(serde_json::to_vec(v).unwrap());
    let input = format!("{}.{}", part(&header), part(&payload));
    let signature: Signature = key.sign(input.as_bytes());
    let jwt = format!("{input}.{}", BASE64_URL_SAFE_NO_PAD.encode(signature.to_vec()));
    let metadata: WalletMetadata = serde_json::from_value(json!({
        "authorization_endpoint": "openid4vp:",
        "request_object_signing_alg_values_supported": ["ES256"],
        "vp_formats_supported": {},
    }))
    .unwrap();
    let request: AuthorizationRequestObject = serde_json::from_value(payload).unwrap();
    did::verify_with_resolver(&metadata, &request, jwt, Some(trusted), &jwk).await.is_ok()
}

#[tokio::test]
async fn only_listed_dids_are_trusted() {
    let trusted = ["did:web:bank.example".to_string()];
    assert!(accepted("did:web:bank.example", &trusted).await);
    assert!(!accepted("did:web:other.example", &trusted).await);
    assert!(!accepted("did:web:bank.example:mallory", &trusted).await);
    assert!(!accepted("did:web:bank.example.mallory.example", &trusted).await);
}
''')

seed("c03-trailing-dot", "C03",
     "a client identifier that is a DNS name of the leaf followed by a dot",
     "An identifier that is not one of the certificate's names is accepted.",
     [(V + "x509_san.rs", "dns == client_id_source\n", "dns == client_id_source.trim_end_matches('.')\n")],
     CERTS + r'''
#[test]
fn the_name_matches_exactly() {
    let x5c = json!([BASE64_STANDARD.encode(certificate(&key(3), &["verifier.example.com"]))]);
    assert!(accepted(false, "x509_san_dns:verifier.example.com", &key(3), x5c.clone()));
    assert!(!accepted(false, "x509_san_dns:other.example.com", &key(3), x5c.clone()));
    assert!(!accepted(false, "x509_san_dns:verifier.example.com.", &key(3), x5c));
}
''')

seed("c03-first-parsable", "C03",
     "a chain whose first element is a certificate that cannot be parsed, followed by a certificate of the signer",
     "A later certificate of the chain is taken for the leaf.",
     [(V + "x509_san.rs",
       '''    let Json::String(b64_x509) = x5chain.first().context("'x5c' was an empty array")? else {
        bail!("'x5c' header was not an array of strings");
    };

    let leaf_cert_der = BASE64_STANDARD_NO_PAD
        .decode(b64_x509.trim_end_matches('='))
        .context("leaf certificate in 'x5c' was not valid base64")?;

    let leaf_cert = Certificate::from_der(&leaf_cert_der)
        .context("leaf certificate in 'x5c' was not valid DER")?;
''',
       '''    if x5chain.is_empty() {
        bail!("'x5c' was an empty array")
    }

    let mut certificates = Vec::new();
    for b64_x509 in &x5chain {
        let Json::String(b64_x509) = b64_x509 else {
            bail!("'x5c' header was not an array of strings");
        };
        let der = BASE64_STANDARD_NO_PAD
            .decode(b64_x509.trim_end_matches('='))
            .context("certificate in 'x5c' was not valid base64")?;
        match Certificate::from_der(&der) {
            Ok(certificate) => certificates.push(certificate),
            Err(e) => debug!("skipping certificate in 'x5c', not valid DER: {e}"),
        }
    }

    let leaf_cert = certificates
        .into_iter()
        .next()
        .context("leaf certificate in 'x5c' was not valid DER")?;
''')],
     CERTS + r'''
#[test]
fn only_the_first_certificate_counts() {
    let good = BASE64_STANDARD.encode(certificate(&key(3), &["verifier.example.com"]));
    let id = "x509_san_dns:verifier.example.com";
    assert!(accepted(false, id, &key(3), json!([good])));
    let mut broken = certificate(&key(3), &["verifier.example.com"]);
    broken.truncate(100);
    assert!(!accepted(false, id, &key(3), json!([BASE64_STANDARD.encode(broken), good])));
}
''')

seed("c04-single-pad", "C04",
     "a leaf certificate whose base64 ends in exactly one '=' (DER length of 2 modulo 3)",
     "A genuine request is refused because the padding is not removed.",
     [(V + "x509_hash.rs", "b64_x509.trim_end_matches('=')", "b64_x509.strip_suffix(\"==\").unwrap_or(b64_x509)")],
     CERTS + r'''
#[test]
fn every_certificate_length_is_accepted() {
    let mut seen = [false; 3];
    for n in 0..12 {
        let der = certificate(&key(3), &[&format!("{}.example.com", "a".repeat(n + 1))]);
        seen[der.len() % 3] = true;
        let id = format!("x509_hash:{}", BASE64_URL_SAFE_NO_PAD.encode(Sha256::digest(&der)));
        assert!(accepted(true, &id, &key(3), json!([BASE64_STANDARD.encode(&der)])));
    }
    assert_eq!(seen, [true; 3]);
}
''')

seed("c04-other-alphabet", "C04",
     "a client identifier that is the leaf's hash in the standard base64 alphabet",
     "The hash is accepted in another encoding than the one of the specification.",
     [(V + "x509_hash.rs", "if computed_hash != expected_hash {",
       "// Compare the hashes themselves.\n    let expected_hash = expected_hash.replace('+', \"-\").replace('/', \"_\");\n    if computed_hash != expected_hash {")],
     CERTS + r'''
#[test]
fn only_the_unpadded_url_safe_encoding_is_accepted() {
    let (mut plus, mut n) = (false, 0);
    while !plus {
        let der = certificate(&key(3), &[&format!("a{n}.example.com")]);
        let hash = Sha256::digest(&der);
        let (url, std) = (BASE64_URL_SAFE_NO_PAD.encode(hash), BASE64_STANDARD_NO_PAD.encode(hash));
        let x5c = json!([BASE64_STANDARD.encode(&der)]);
        assert!(accepted(true, &format!("x509_hash:{url}"), &key(3), x5c.clone()));
        if url != std {
            plus = true;
            assert!(!accepted(true, &format!("x509_hash:{std}"), &key(3), x5c));
        }
        n += 1;
    }
}
''')

seed("c05-redirect-lookalike", "C05",
     "a client identifier that begins with 'redirect_uri' without having that prefix, and a request object without the right 'typ'",
     "The check of the request object's type is skipped for clients that are not redirect_uri clients.",
     [(AR, 'c.starts_with("redirect_uri:")', 'c.starts_with("redirect_uri")')],
     WALLET + r'''
#[tokio::test]
async fn the_type_of_the_request_object_is_checked() {
    let w = TestWallet::new(json!({"client_id_prefixes_supported": ["redirect_uri", "redirect_uri2"]}), 200, "");
    let untyped = |id: &str| by_value(id, jwt(json!({"alg": "ES256"}), object(id, json!({}))));
    assert!(untyped("redirect_uri:https://a.example").validate(&w).await.is_ok());
    assert!(untyped("registered").validate(&w).await.is_err());
    assert!(untyped("redirect_uri_client").validate(&w).await.is_err());
    assert!(untyped("redirect_uri2:https://a.example").validate(&w).await.is_err());
}
''')

seed("c05-bare-inner-id", "C05",
     "a request whose inner client identifier is the outer one without its prefix",
     "The outer and inner client identifiers differ and the request is accepted all the same, under the inner identity.",
     [(AR, "            if x != y {", "            // The prefix may be left out of the Request Object.\n            if x != y && x.split_once(':').map(|(_, bare)| bare) != Some(y.as_str()) {")],
     WALLET + r'''
#[tokio::test]
async fn both_client_identifiers_are_the_same() {
    let w = TestWallet::new(json!({"client_id_prefixes_supported": ["redirect_uri", "decentralized_identifier"]}), 200, "");
    let request = |outer: &str, inner: &str| by_value(outer, request_jwt(object(inner, json!({}))));
    assert!(request("decentralized_identifier:abc", "decentralized_identifier:abc").validate(&w).await.is_ok());
    assert!(request("decentralized_identifier:abc", "abcd").validate(&w).await.is_err());
    assert!(request("decentralized_identifier:abc", "abc").validate(&w).await.is_err());
}
''')

seed("c06-redirect-status", "C06",
     "a server that answers the fetch with a 3xx status and a well-formed request object",
     "A request object from an answer that is not a success is used.",
     [(AR, "if !status.is_success() {", "if status.is_client_error() || status.is_server_error() {")],
     WALLET + r'''
#[tokio::test]
async fn only_successful_answers_are_used() {
    for (status, ok) in [(200, true), (204, true), (404, false), (503, false), (302, false), (304, false)] {
        let w = TestWallet::new(json!({}), status, request_jwt(object("registered", json!({}))));
        let r = by_reference("registered").validate(&w).await;
        assert_eq!(r.is_ok(), ok, "{status}: {r:?}");
        assert_eq!(w.http.seen.lock().unwrap().len(), 1);
    }
}
''')

seed("c06-retry", "C06",
     "a server error (503) as the first answer to the fetch",
     "The request is fetched a second time, although a fetch may be counted and one-time addresses are used up.",
     [(AR, '''                let response = http_client.execute(request).await.context(format!(
                    "failed to make authorization request request at {url}"
                ))?;
''', '''                let retry = request.clone();
                let mut response = http_client.execute(request).await.context(format!(
                    "failed to make authorization request request at {url}"
                ))?;
                if response.status() == http::StatusCode::SERVICE_UNAVAILABLE {
                    response = http_client.execute(retry).await.context(format!(
                        "failed to make authorization request request at {url}"
                    ))?;
                }
''')],
     WALLET + r'''
#[tokio::test]
async fn the_request_is_fetched_once() {
    for status in [200, 404, 500, 503] {
        let w = TestWallet::new(json!({}), status, request_jwt(object("registered", json!({}))));
        let _ = by_reference("registered").validate(&w).await;
        assert_eq!(w.http.seen.lock().unwrap().len(), 1, "{status}");
    }
}
''')

# ---- C07 .. C12 ------------------------------------------------------------------------------
seed("c07-origin-signed", "C07",
     "a signed request of an 'origin' client at a wallet that lists 'origin' as supported",
     "The reserved 'origin' prefix reaches the wallet's extension verification and can be accepted.",
     [(V + "mod.rs", "Some(ClientIdScheme::ORIGIN) => {\n            bail!", "Some(ClientIdScheme::ORIGIN) if jwt.is_none() => {\n            bail!")],
     WALLET + r'''
#[tokio::test]
async fn origin_clients_are_refused() {
    let w = TestWallet::new(json!({"client_id_prefixes_supported": ["origin", "custom"]}), 200, "");
    for (id, ok) in [("custom:x", true), ("origin:https://a.example", false)] {
        let r = by_value(id, request_jwt(object(id, json!({})))).validate(&w).await;
        assert_eq!(r.is_ok(), ok, "{id}: {r:?}");
    }
    assert_eq!(*w.ran.lock().unwrap(), ["other"]);
}
''')

seed("c07-case-insensitive", "C07",
     "a client identifier whose prefix differs from a supported one in case only",
     "A prefix the wallet does not list gets past the check and reaches the extension verification.",
     [(V + "mod.rs", "            .contains(prefix)\n        {", "            .iter()\n            .any(|supported| supported.0.eq_ignore_ascii_case(&prefix.0))\n        {")],
     WALLET + r'''
#[tokio::test]
async fn prefixes_are_case_sensitive() {
    let w = TestWallet::new(json!({"client_id_prefixes_supported": ["decentralized_identifier"]}), 200, "");
    for (id, ok) in [("decentralized_identifier:x", true), ("custom:x", false), ("Decentralized_Identifier:x", false)] {
        let r = by_value(id, request_jwt(object(id, json!({})))).validate(&w).await;
        assert_eq!(r.is_ok(), ok, "{id}: {r:?}");
    }
    assert_eq!(*w.ran.lock().unwrap(), ["decentralized_identifier"]);
}
''')

seed("c08-malformed-enc", "C08",
     "an encrypted-response request whose list of content-encryption methods is malformed",
     "Malformed verifier metadata is treated as if it were absent instead of being refused.",
     [(V + "mod.rs", ".transpose()?\n            .unwrap_or_default();", ".and_then(|enc_values| enc_values.ok())\n            .unwrap_or_default();")],
     WALLET + r'''
#[tokio::test]
async fn malformed_metadata_is_refused() {
    let w = TestWallet::new(json!({}), 200, "");
    for (enc, ok) in [(json!(["A256GCM"]), true), (json!("A256GCM"), false), (json!([1]), false), (json!(null), false)] {
        let metadata = json!({
            "jwks": {"keys": [{"kty": "EC", "crv": "P-256", "x": "x", "y": "y", "use": "enc", "alg": "ECDH-ES"}]},
            "encrypted_response_enc_values_supported": enc,
        });
        let o = object("registered", json!({"response_mode": "direct_post.jwt", "client_metadata": metadata}));
        let r = by_value("registered", request_jwt(o)).validate(&w).await;
        assert_eq!(r.is_ok(), ok, "{enc}: {r:?}");
    }
}
''')

seed("c08-first-alg", "C08",
     "a verifier that offers several encryption keys of which the wallet supports only the algorithm of a later one",
     "A request the wallet could answer is refused.",
     [(V + "mod.rs", "let has_supported_alg = encryption_algs.iter().any(|alg| supported.0.contains(alg));",
       "let has_supported_alg = encryption_algs\n                .first()\n                .is_some_and(|alg| supported.0.contains(alg));")],
     WALLET + r'''
#[tokio::test]
async fn any_common_algorithm_will_do() {
    let w = TestWallet::new(json!({"authorization_encryption_alg_values_supported": ["ECDH-ES"]}), 200, "");
    let key = |alg: &str| json!({"kty": "EC", "crv": "P-256", "x": "x", "y": "y", "use": "enc", "alg": alg});
    for (keys, ok) in [
        (json!([key("ECDH-ES")]), true),
        (json!([key("ECDH-ES+A128KW")]), false),
        (json!([key("ECDH-ES"), key("ECDH-ES+A128KW")]), true),
        (json!([key("ECDH-ES+A128KW"), key("ECDH-ES")]), true),
    ] {
        let o = object("registered", json!({"response_mode": "direct_post.jwt", "client_metadata": {"jwks": {"keys": keys}}}));
        let r = by_value("registered", request_jwt(o)).validate(&w).await;
        assert_eq!(r.is_ok(), ok, "{keys}: {r:?}");
    }
}
''')

seed("c09-bad-redirect", "C09",
     "a request object with a response address and a redirect address that is not a valid URL",
     "An object that carries both addresses is accepted.",
     [(AR, "let redirect_uri = value.get::<RedirectUri>();", "let redirect_uri = value.get::<RedirectUri>().filter(|uri| uri.is_ok());")],
     r'''
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use serde_json::json;

#[test]
fn response_and_redirect_address_exclude_each_other() {
    for (redirect, ok) in [(None, true), (Some(json!("https://a.example/")), false), (Some(json!("not a url")), false), (Some(json!(7)), false)] {
        let mut o = json!({
            "client_id": "c", "response_type": "vp_token", "response_mode": "direct_post",
            "response_uri": "https://verifier.example.com/response", "nonce": "n",
        });
        if let Some(r) = redirect.clone() {
            o["redirect_uri"] = r;
        }
        let r = serde_json::from_value::<AuthorizationRequestObject>(o);
        assert_eq!(r.is_ok(), ok, "{redirect:?}: {r:?}");
    }
}
''')

seed("c10-host-only", "C10",
     "a URL at the endpoint's host but another port or with a user name",
     "A URL of another authority is decoded.",
     [(AR, "let fnd = url.authority();\n        let exp = authorization_endpoint.authority();",
       "let fnd = url.host_str().unwrap_or_default();\n        let exp = authorization_endpoint.host_str().unwrap_or_default();")],
     r'''
use openid4vp::core::authorization_request::AuthorizationRequest;

#[test]
fn the_endpoint_is_checked() {
    let endpoint = "https://wallet.example/authorize".parse().unwrap();
    for (at, ok) in [
        ("https://wallet.example/authorize", true),
        ("https://other.example/authorize", false),
        ("https://wallet.example:8443/authorize", false),
        ("https://user@wallet.example/authorize", false),
    ] {
        let r = AuthorizationRequest::from_url(format!("{at}?client_id=c&request=r").parse().unwrap(), &endpoint);
        assert_eq!(r.is_ok(), ok, "{at}: {r:?}");
    }
}
''')

seed("c11-empty-state", "C11",
     "a response whose state is the empty string",
     "The state is lost in the form encoding.",
     [(RESP, "let state = value.state.map(|s| s.0);", "let state = value.state.map(|s| s.0).filter(|s| !s.is_empty());")],
     r'''
use openid4vp::core::response::{parameters::*, *};

#[test]
fn the_state_survives() {
    for state in ["abc", " ", "+", ""] {
        let mut r = UnencodedAuthorizationResponse::new(VpToken::with_credential("c", vec![VpTokenItem::from("p".to_string())]));
        r.state = Some(State(state.into()));
        let form = r.into_x_www_form_urlencoded().unwrap();
        let AuthorizationResponse::Unencoded(back) = AuthorizationResponse::from_x_www_form_urlencoded(form.as_bytes()).unwrap() else { panic!() };
        assert_eq!(back.state.map(|s| s.0).as_deref(), Some(state));
    }
}
''')

seed("c12-blank-error", "C12",
     "a server error (5xx) or another unsuccessful status with an empty body as the answer to the submission",
     "The wallet reports success although the verifier did not accept the response.",
     [(W, "        if !status.is_success() {\n            bail!", "        if body.trim().is_empty() && !status.is_client_error() {\n            return Ok(None);\n        }\n\n        if !status.is_success() {\n            bail!")],
     WALLET + r'''
#[tokio::test]
async fn success_is_reported_only_after_success() {
    for (status, body, ok) in [(200, "", true), (204, " ", true), (500, "oops", false), (400, "", false), (500, "", false), (302, "", false)] {
        let w = TestWallet::new(json!({}), status, body);
        let request = serde_json::from_value(object("registered", json!({}))).unwrap();
        let response = UnencodedAuthorizationResponse::new(VpToken::with_credential("c", vec![VpTokenItem::from("p".to_string())]));
        let r = w.submit_response(request, AuthorizationResponse::Unencoded(response)).await;
        assert_eq!(r.is_ok(), ok, "{status} {body:?}: {r:?}");
    }
}
''')

# ---- C13 .. C19 ------------------------------------------------------------------------------
seed("c13-first-success", "C13",
     "two responses for one session, the first of which the validator takes for a success",
     "The second response's outcome is not the one reported.",
     [(VER, '''        self.session_store
            .update_status(reference, Status::Complete(outcome))
            .await
''', '''        // Do not replace a success.
        if matches!(
            self.poll_status(reference).await?,
            Status::Complete(Outcome::Success { .. })
        ) {
            return Ok(());
        }

        self.session_store
            .update_status(reference, Status::Complete(outcome))
            .await
''')],
     VERIFIER + r'''
#[tokio::test]
async fn the_reported_outcome_is_the_validators() {
    let v = verifier_with(Arc::new(MemoryStore::default()), "https://v.example/s", None).await;
    let (id, _) = v
        .build_authorization_request()
        .with_dcql_query(query())
        .with_request_parameter(ResponseMode::DirectPost)
        .with_request_parameter(ResponseType::VpToken)
        .with_request_parameter(Nonce::from("n"))
        .build(wallet_metadata())
        .await
        .unwrap();
    for outcome in [Outcome::Failure { reason: "f".into() }, Outcome::Success { info: json!(1) }, Outcome::Error { cause: "e".into() }] {
        let o = outcome.clone();
        v.verify_response(id, response(), |_, _| Box::pin(async move { o })).await.unwrap();
        assert_eq!(v.poll_status(id).await.unwrap(), Status::Complete(outcome));
    }
}
''')

seed("c14-resurrect", "C14",
     "a session that is removed (or changed) by another task while its response is being validated",
     "The snapshot taken before the validation overwrites what happened meanwhile: a removed session comes back.",
     [(VER, '''        let outcome = validator_function(session, authorization_response).await;

        self.session_store
            .update_status(reference, Status::Complete(outcome))
            .await
''', '''        let mut completed = session.clone();
        let outcome = validator_function(session, authorization_response).await;

        completed.status = Status::Complete(outcome);
        debug_assert_eq!(completed.uuid, reference);
        self.session_store.initiate(completed).await
''')],
     VERIFIER + r'''
#[tokio::test]
async fn a_removed_session_stays_removed() {
    let store = Arc::new(MemoryStore::default());
    let v = verifier_with(store.clone(), "https://v.example/s", None).await;
    let (id, _) = v
        .build_authorization_request()
        .with_dcql_query(query())
        .with_request_parameter(ResponseMode::DirectPost)
        .with_request_parameter(ResponseType::VpToken)
        .with_request_parameter(Nonce::from("n"))
        .build(wallet_metadata())
        .await
        .unwrap();
    let s = store.clone();
    let r = v
        .verify_response(id, response(), |_, _| {
            Box::pin(async move {
                // Another task removes the session while the response is validated.
                tokio::spawn(async move { s.remove_session(id).await }).await.unwrap().unwrap();
                Outcome::Success { info: json!(1) }
            })
        })
        .await;
    println!("{r:?}");
    assert!(store.get_session(id).await.is_err());
}
''')

FAILING_STORE = r'''
/// A store whose operations fail on demand.
#[derive(Debug, Default)]
struct Failing {
    inner: MemoryStore,
    update: std::sync::atomic::AtomicBool,
    initiated: std::sync::atomic::AtomicUsize,
}

#[async_trait]
impl SessionStore for Failing {
    async fn initiate(&self, session: Session) -> anyhow::Result<()> {
        self.initiated.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        self.inner.initiate(session).await
    }
    async fn update_status(&self, uuid: Uuid, status: Status) -> anyhow::Result<()> {
        if self.update.load(std::sync::atomic::Ordering::SeqCst) {
            anyhow::bail!("store is down")
        }
        self.inner.update_status(uuid, status).await
    }
    async fn get_session(&self, uuid: Uuid) -> anyhow::Result<Session> {
        self.inner.get_session(uuid).await
    }
    async fn remove_session(&self, uuid: Uuid) -> anyhow::Result<()> {
        self.inner.remove_session(uuid).await
    }
}
'''

seed("c15-lost-failure", "C15",
     "a session store that fails when the outcome of a rejected response is recorded",
     "The failure to record the outcome is hidden: the caller believes it was recorded.",
     [(VER, '''        self.session_store
            .update_status(reference, Status::Complete(outcome))
            .await
''', '''        let succeeded = matches!(outcome, Outcome::Success { .. });
        let recorded = self
            .session_store
            .update_status(reference, Status::Complete(outcome))
            .await;

        // Nothing depends on a response that was not accepted.
        if succeeded {
            recorded
        } else {
            Ok(())
        }
''')],
     VERIFIER + FAILING_STORE + r'''
#[tokio::test]
async fn an_outcome_that_is_not_recorded_is_an_error() {
    let store = Arc::new(Failing::default());
    let v = verifier_with(store.clone(), "https://v.example/s", None).await;
    for outcome in [Outcome::Success { info: json!(1) }, Outcome::Failure { reason: "f".into() }, Outcome::Error { cause: "e".into() }] {
        let (id, _) = v
            .build_authorization_request()
            .with_dcql_query(query())
            .with_request_parameter(ResponseMode::DirectPost)
            .with_request_parameter(ResponseType::VpToken)
            .with_request_parameter(Nonce::from("n"))
            .build(wallet_metadata())
            .await
            .unwrap();
        for down in [true, false] {
            store.update.store(down, std::sync::atomic::Ordering::SeqCst);
            let o = outcome.clone();
            let r = v.verify_response(id, response(), |_, _| Box::pin(async move { o })).await;
            assert_eq!(r.is_err(), down, "{outcome:?}");
        }
    }
}
''')

seed("c15-session-first", "C15",
     "a client that fails to create the signed request object (after the session was stored)",
     "A session is left in the store for a request that was never handed out.",
     [(RB, '''        let authorization_request_jwt = self
            .verifier
            .client
            .generate_request_object_jwt(&authorization_request_object)
            .await?;

        let initial_status = Status::SentRequest;

        let session = Session {
            uuid,
            status: initial_status,
            authorization_request_jwt: authorization_request_jwt.clone(),
            authorization_request_object: authorization_request_object.clone(),
            dcql_query,
        };

        self.verifier
            .session_store
            .initiate(session)
            .await
            .context("failed to store the session in the session store")?;
''', '''        let initial_status = Status::SentRequest;

        let mut session = Session {
            uuid,
            status: initial_status,
            authorization_request_jwt: String::new(),
            authorization_request_object: authorization_request_object.clone(),
            dcql_query,
        };

        self.verifier
            .session_store
            .initiate(session.clone())
            .await
            .context("failed to store the session in the session store")?;

        let authorization_request_jwt = self
            .verifier
            .client
            .generate_request_object_jwt(&authorization_request_object)
            .await?;

        session.authorization_request_jwt = authorization_request_jwt.clone();
        self.verifier
            .session_store
            .initiate(session)
            .await
            .context("failed to store the session in the session store")?;
''')],
     VERIFIER + FAILING_STORE + r'''
#[derive(Debug)]
struct Broken(ClientId);

#[async_trait]
impl Client for Broken {
    fn id(&self) -> &ClientId {
        &self.0
    }
    fn prefix(&self) -> ClientIdScheme {
        ClientIdScheme("x509_san_dns".into())
    }
    async fn generate_request_object_jwt(&self, _: &AuthorizationRequestObject) -> anyhow::Result<String> {
        anyhow::bail!("the key is not available")
    }
}

#[tokio::test]
async fn no_session_without_a_request() {
    let store = Arc::new(Failing::default());
    let v = Verifier::builder()
        .with_client(Arc::new(Broken(ClientId("x509_san_dns:v.example".into()))))
        .with_session_store(store.clone())
        .with_submission_endpoint("https://v.example/s".parse().unwrap())
        .build()
        .await
        .unwrap();
    let b = || {
        v.build_authorization_request()
            .with_dcql_query(query())
            .with_request_parameter(ResponseMode::DirectPost)
            .with_request_parameter(ResponseType::VpToken)
            .with_request_parameter(Nonce::from("n"))
    };
    assert!(b().build(wallet_metadata()).await.is_err());
    assert!(b().build_dc_api().await.is_err());
    assert_eq!(store.initiated.load(std::sync::atomic::Ordering::SeqCst), 0);
}
''')

seed("c16-dcql-default", "C16",
     "a verifier with a default 'dcql_query' parameter, another query for the request, and the digital-credentials API",
     "The default query is signed and sent while the session records the caller's.",
     [(RB, '''            bail!("dcql query is required, see `with_dcql_query`")
        };

        let _ = self.request_parameters.insert(dcql_query.clone());
''', '''            bail!("dcql query is required, see `with_dcql_query`")
        };

        if self.request_parameters.get::<DcqlQuery>().is_none() {
            let _ = self.request_parameters.insert(dcql_query.clone());
        }
''')],
     VERIFIER + r'''
#[tokio::test]
async fn the_callers_query_is_sent() {
    let store = Arc::new(MemoryStore::default());
    let other = DcqlQuery::new(NonEmptyVec::new(DcqlCredentialQuery::new("other".into(), ClaimFormatDesignation::MsoMDoc)));
    let v = Verifier::builder()
        .with_client(Arc::new(TestClient(ClientId("x509_san_dns:v.example".into()))))
        .with_session_store(store.clone())
        .with_submission_endpoint("https://v.example/s".parse().unwrap())
        .with_default_request_parameter(other)
        .build()
        .await
        .unwrap();
    let b = || {
        v.build_authorization_request()
            .with_dcql_query(query())
            .with_request_parameter(ResponseMode::DcApi)
            .with_request_parameter(ResponseType::VpToken)
            .with_request_parameter(Nonce::from("n"))
    };
    let ids = [b().build(wallet_metadata()).await.unwrap().0, b().build_dc_api().await.unwrap().0];
    for id in ids {
        let s = store.get_session(id).await.unwrap();
        assert_eq!(s.dcql_query, query());
        assert_eq!(s.authorization_request_object.dcql_query().unwrap().unwrap(), query());
    }
}
''')

seed("c17-multiple-false", "C17",
     "a credential query that says 'multiple': false explicitly",
     "A member that was given is dropped from the JSON, and reading it back gives another query.",
     [(DQ, "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    multiple: Option<bool>,",
       "    #[serde(skip_serializing_if = \"is_default_multiple\")]\n    multiple: Option<bool>,"),
      (DQ, "impl DcqlCredentialQuery {\n    pub fn new", "fn is_default_multiple(multiple: &Option<bool>) -> bool {\n    !multiple.unwrap_or(false)\n}\n\nimpl DcqlCredentialQuery {\n    pub fn new")],
     r'''
use openid4vp::core::{credential_format::*, dcql_query::*};

#[test]
fn what_was_given_is_written() {
    for multiple in [None, Some(true), Some(false)] {
        let mut q = DcqlCredentialQuery::new("c".into(), ClaimFormatDesignation::MsoMDoc);
        q.set_multiple(multiple);
        let json = serde_json::to_value(&q).unwrap();
        assert_eq!(json.get("multiple").and_then(|m| m.as_bool()), multiple);
        assert_eq!(serde_json::from_value::<DcqlCredentialQuery>(json).unwrap(), q);
    }
}
''')

seed("c17-integer-path", "C17",
     "a claims path with an integer index larger than a byte",
     "Indices are truncated or refused.",
     [],
     "", )
SEEDS.pop()

seed("c18-empty-thumbprint", "C18",
     "a handover with an empty (but present) key thumbprint",
     "Two different bound values give the same transcript.",
     [(ISO, "            Some(bytes) => Cbor::Bytes(bytes.to_vec()),\n            None => Cbor::Null,\n        };\n\n        let handover_info = Cbor::Array(vec![\n            Cbor::Text(client_id",
       "            Some(bytes) if !bytes.is_empty() => Cbor::Bytes(bytes.to_vec()),\n            _ => Cbor::Null,\n        };\n\n        let handover_info = Cbor::Array(vec![\n            Cbor::Text(client_id")],
     r'''
use openid4vp::core::iso_18013_7::Handover;

#[test]
fn every_bound_value_counts() {
    let h = |t: Option<&[u8]>| Handover::new("c", "n", t, "https://v.example/r").unwrap();
    assert_ne!(h(None), h(Some(&[0; 32])));
    assert_ne!(h(Some(&[1; 32])), h(Some(&[0; 32])));
    assert_ne!(h(None), h(Some(&[])));
}
''')

seed("c18-origin-slash", "C18",
     "an origin that ends in a slash",
     "Two origins that differ give the same transcript, and the hash is not the one of the specification.",
     [(ISO, "            Cbor::Text(origin.to_string()),", "            Cbor::Text(origin.trim_end_matches('/').to_string()),")],
     r'''
use openid4vp::core::iso_18013_7::DcApiHandover;

#[test]
fn every_bound_value_counts() {
    let h = |o: &str| DcApiHandover::new(o, "n", None).unwrap();
    assert_ne!(h("https://a.example"), h("https://b.example"));
    assert_ne!(h("https://a.example"), h("https://a.example/"));
}
''')

seed("c19-use-other", "C19",
     "a key marked for a use that is neither 'enc' nor 'sig' before the encryption key",
     "The thumbprint taken for a request is that of a key that is not marked for encryption.",
     [(ISO, ".map(|u| u == \"enc\")\n                    .unwrap_or(true)", ".map(|u| u != \"sig\")\n                    .unwrap_or(true)")],
     r'''
use openid4vp::core::{authorization_request::AuthorizationRequestObject, iso_18013_7::*};
use serde_json::json;

#[test]
fn the_first_encryption_key_is_taken() {
    let key = |x: &str, u: &str| json!({"kty": "EC", "crv": "P-256", "x": x, "y": "y", "use": u});
    for first in ["sig", "tls", "ENC"] {
        let request: AuthorizationRequestObject = serde_json::from_value(json!({
            "client_id": "c", "response_type": "vp_token", "response_mode": "dc_api", "nonce": "n",
            "client_metadata": {"jwks": {"keys": [key("a", first), key("b", "enc")]}},
        }))
        .unwrap();
        assert_eq!(get_encryption_jwk_thumbprint(&request), Some(compute_jwk_thumbprint(&key("b", "enc")).unwrap()), "{first}");
    }
}
''')

# ---- C20 .. C30 ------------------------------------------------------------------------------
seed("c20-malformed-prefixes", "C20",
     "metadata whose list of client identifier prefixes is malformed, and a prefix added to it",
     "The malformed list is silently replaced.",
     [(MD, "self.0.get_or_default::<ClientIdPrefixesSupported>()?", "self\n            .0\n            .get_or_default::<ClientIdPrefixesSupported>()\n            .unwrap_or_default()")],
     r'''
use openid4vp::core::{authorization_request::parameters::ClientIdScheme, metadata::WalletMetadata};
use serde_json::json;

#[test]
fn a_malformed_list_is_not_discarded() {
    for (list, ok) in [(json!(["redirect_uri"]), true), (json!("redirect_uri"), false), (json!([1]), false)] {
        let mut m: WalletMetadata = serde_json::from_value(json!({
            "authorization_endpoint": "openid4vp:", "vp_formats_supported": {}, "client_id_prefixes_supported": list,
        }))
        .unwrap();
        let r = m.add_client_id_prefixes_supported(&[ClientIdScheme("x509_hash".into())]);
        assert_eq!(r.is_ok(), ok, "{list}");
        if !ok {
            assert_eq!(serde_json::to_value(m).unwrap()["client_id_prefixes_supported"], list);
        }
    }
}
''')

seed("c21-null-absent", "C21",
     "a parameter whose stored value is null",
     "An ill-formed value is reported as absent instead of as an error.",
     [(OBJ, "        Some(self.0.get(T::KEY)?.clone().try_into())", "        let value = self.0.get(T::KEY).filter(|value| !value.is_null())?;\n        Some(value.clone().try_into())")],
     r'''
use openid4vp::core::{authorization_request::parameters::*, object::UntypedObject};
use serde_json::json;

#[test]
fn ill_formed_values_are_errors() {
    for value in [json!(1), json!([]), json!(null)] {
        let o: UntypedObject = serde_json::from_value(json!({"nonce": value})).unwrap();
        assert!(matches!(o.get::<Nonce>(), Some(Err(_))), "{value}");
        assert!(o.get::<State>().is_none());
    }
}
''')

seed("c21-id-token-order", "C21",
     "a response type that names the known types in another order or twice",
     "An unsupported response type is taken for a supported one and written back differently.",
     [(AP, "VP_TOKEN_ID_TOKEN => ResponseType::VpTokenIdToken,", "VP_TOKEN_ID_TOKEN | \"id_token vp_token\" => ResponseType::VpTokenIdToken,")],
     r'''
use openid4vp::core::authorization_request::parameters::ResponseType;
use serde_json::{json, Value as Json};

#[test]
fn names_are_kept() {
    for name in ["vp_token", "vp_token id_token", "id_token", "id_token vp_token"] {
        let t = ResponseType::try_from(json!(name)).unwrap();
        assert_eq!(Json::from(t), json!(name));
    }
}
''')

seed("c22-other-lists", "C22",
     "a format whose declaration has other members beside its algorithms (kept as an unknown declaration)",
     "A security method is reported as supported for a declaration that is not a list of algorithms.",
     [(MV, "            _ => false,\n        }", "            Some(ClaimFormatPayload::Other(other)) => other\n                .as_object()\n                .into_iter()\n                .flat_map(|members| members.values())\n                .filter_map(|values| values.as_array())\n                .flatten()\n                .any(|value| value == security_method),\n            None => false,\n        }")],
     r'''
use openid4vp::core::{credential_format::*, metadata::parameters::verifier::VpFormats};
use serde_json::json;

#[test]
fn only_listed_methods_are_supported() {
    let f: VpFormats = serde_json::from_value(json!({
        "jwt_vc_json": {"alg_values": ["ES256"]},
        "dc+sd-jwt": {"sd-jwt_alg_values": ["ES384"], "names": ["ES256"]},
    }))
    .unwrap();
    assert!(f.supports_security_method(&ClaimFormatDesignation::JwtVcJson, &"ES256".to_string()));
    assert!(!f.supports_security_method(&ClaimFormatDesignation::JwtVcJson, &"ES384".to_string()));
    assert!(!f.supports_security_method(&ClaimFormatDesignation::DcSdJwt, &"ES256".to_string()));
}
''')

seed("c23-short-signature", "C23",
     "a request whose signature is shorter than 64 bytes",
     "The wallet crashes instead of refusing the request.",
     [(V + "verifier.rs", "p256::ecdsa::Signature::from_slice(signature)?", "p256::ecdsa::Signature::from_slice(&signature[..64])?")],
     CERTS + r'''
#[test]
fn a_short_signature_is_refused() {
    let der = certificate(&key(3), &["v.example"]);
    let p = payload("x509_san_dns:v.example");
    let jwt = sign(&key(3), json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [BASE64_STANDARD.encode(der)]}), &p);
    let request: AuthorizationRequestObject = serde_json::from_value(p).unwrap();
    let (input, signature) = jwt.rsplit_once('.').unwrap();
    assert!(x509_san::validate::<P256Verifier>(&metadata(), &request, jwt.clone(), None).is_ok());
    for cut in [signature, &signature[..40], ""].iter().skip(1) {
        let jwt = format!("{input}.{cut}");
        assert!(x509_san::validate::<P256Verifier>(&metadata(), &request, jwt, None).is_err());
    }
}
''')

seed("c24-short-chain", "C24",
     "a client with a certificate chain of more than two certificates",
     "The header does not carry the whole chain.",
     [(CL, "            .map(|x509| x509.to_der())\n            .map(|der| Ok(BASE64_STANDARD.encode(der?)))", "            .take(2)\n            .map(|x509| x509.to_der())\n            .map(|der| Ok(BASE64_STANDARD.encode(der?)))")],
     CERTS + r'''
#[tokio::test]
async fn the_whole_chain_is_sent() {
    use openid4vp::verifier::{client::*, request_signer::P256Signer};
    use x509_cert::der::Decode;
    for n in 1..5u8 {
        let ders: Vec<_> = (0..n).map(|i| certificate(&key(9 + i), &[&format!("v{i}.example")])).collect();
        let chain = ders.iter().map(|d| x509_cert::Certificate::from_der(d).unwrap()).collect();
        let client = X509SanDnsClient::new(chain, std::sync::Arc::new(P256Signer::new(key(9)).unwrap())).unwrap();
        let request: AuthorizationRequestObject = serde_json::from_value(payload(&client.id().0)).unwrap();
        let jwt = client.generate_request_object_jwt(&request).await.unwrap();
        let header: Json = serde_json::from_slice(&BASE64_URL_SAFE_NO_PAD.decode(jwt.split('.').next().unwrap()).unwrap()).unwrap();
        let expected: Vec<_> = ders.iter().map(|d| BASE64_STANDARD.encode(d)).collect();
        assert_eq!(header["x5c"], json!(expected));
    }
}
''', nth=0)

seed("c25-success-equality", "C25",
     "two successful outcomes with different information",
     "Equality is no longer consistent with the order (neither less, nor greater, nor equal).",
     [(FE, "core::mem::discriminant(self) == core::mem::discriminant(other)",
       "match (self, other) {\n            (Self::Success { info: a }, Self::Success { info: b }) => a == b,\n            _ => core::mem::discriminant(self) == core::mem::discriminant(other),\n        }")],
     r'''
use openid4vp::verifier::session::{Outcome, Status};
use serde_json::json;

#[test]
fn equality_agrees_with_the_order() {
    let all = [
        Status::SentRequest,
        Status::Complete(Outcome::Failure { reason: "a".into() }),
        Status::Complete(Outcome::Failure { reason: "b".into() }),
        Status::Complete(Outcome::Success { info: json!(1) }),
        Status::Complete(Outcome::Success { info: json!(2) }),
    ];
    for a in &all {
        for b in &all {
            assert_eq!(a == b, a.partial_cmp(b) == Some(std::cmp::Ordering::Equal), "{a:?} {b:?}");
        }
    }
}
''')

seed("c27-insert-extends", "C27",
     "presentations stored twice under the same query identifier",
     "The second list is appended to the first instead of replacing it.",
     [(RP, "        self.0.insert(credential_id.into(), presentations);", "        self.0\n            .entry(credential_id.into())\n            .or_default()\n            .extend(presentations);")],
     r'''
use openid4vp::core::response::parameters::{VpToken, VpTokenItem};

#[test]
fn the_last_list_is_kept() {
    let item = |s: &str| VpTokenItem::from(s.to_string());
    let mut t = VpToken::new();
    t.insert("a", vec![item("1")]);
    t.insert("b", vec![item("2")]);
    t.insert("a", vec![item("3")]);
    assert_eq!(t.get("a"), Some(&vec![item("3")]));
    assert_eq!(t.len(), 2);
}
''')

seed("c28-repeated-header", "C28",
     "an HTTP answer with two headers of the same name",
     "Only one of the values reaches the caller.",
     [(UT, "            .extend(response.headers().clone());\n\n        builder\n            .body",
       "            .extend(\n                response\n                    .headers()\n                    .iter()\n                    .map(|(name, value)| (name.clone(), value.clone()))\n                    .collect::<std::collections::HashMap<_, _>>(),\n            );\n\n        builder\n            .body")],
     r'''
use openid4vp::core::util::{AsyncHttpClient, ReqwestClient};
use std::io::{Read, Write};

#[tokio::test]
async fn every_header_arrives() {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let at = format!("http://{}/", l.local_addr().unwrap());
    std::thread::spawn(move || {
        let (mut s, _) = l.accept().unwrap();
        let _ = s.read(&mut [0; 4096]);
        s.write_all(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\nX-A: 1\r\nX-A: 2\r\nConnection: close\r\n\r\nok").unwrap();
    });
    let r = ReqwestClient::new().unwrap().execute(http::Request::get(at).body(vec![]).unwrap()).await.unwrap();
    assert_eq!(r.body(), b"ok");
    assert_eq!(r.headers().get_all("x-a").iter().collect::<Vec<_>>(), ["1", "2"]);
}
''')

seed("c29-capped", "C29",
     "a nonce longer than 128 characters",
     "The nonce is shorter than asked for.",
     [(AP, "        Self(Alphanumeric.sample_string(rng, length))", "        // Longer nonces add nothing.\n        Self(Alphanumeric.sample_string(rng, length.min(128)))")],
     r'''
use openid4vp::core::authorization_request::parameters::Nonce;

#[test]
fn the_length_is_the_one_asked_for() {
    for n in [0, 1, 16, 127, 128, 129, 1000] {
        assert_eq!(Nonce::random(&mut rand::thread_rng(), n).to_string().len(), n);
    }
}
''')

seed("c30-maybe-empty", "C30",
     "a non-empty list made with maybe_new from an empty list",
     "A non-empty list is empty.",
     [(NEV, "        Self::try_from(v).ok()", "        Some(Self(v))")],
     r'''
use openid4vp::utils::NonEmptyVec;

#[test]
fn an_empty_list_is_refused() {
    assert_eq!(NonEmptyVec::maybe_new(vec![1, 2]).unwrap().into_inner(), [1, 2]);
    assert!(NonEmptyVec::<u8>::maybe_new(vec![]).is_none());
}
''')
