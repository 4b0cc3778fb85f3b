//! C23: hostile input is rejected with an error, never a crash.
//!
//! Every case starts from something well formed, changes it at chosen places (bytes, JSON nodes,
//! texts of the wrong length, nesting) and hands it to every entry point of its kind.  A panic
//! fails the case; an abort or a case that does not end is found by the supervisor (main.rs).
use openid4vp::{
    core::{
        authorization_request::{
            parameters::{ClientMetadata, ResponseMode},
            verification::{did, verifier::P256Verifier, x509_hash, x509_san},
            AuthorizationRequest, AuthorizationRequestObject, RequestIndirection,
        },
        credential_format::{ClaimFormat, ClaimFormatDesignation, ClaimFormatMap, ClaimFormatPayload},
        dcql_query::DcqlQuery,
        iso_18013_7::{compute_jwk_thumbprint, get_encryption_jwk_thumbprint, DcApiHandover, Handover, SessionTranscript},
        metadata::{
            parameters::verifier::{JWKs, VpFormats},
            WalletMetadata,
        },
        object::UntypedObject,
        response::{parameters::VpToken, AuthorizationResponse, UnencodedAuthorizationResponse},
    },
    verifier::session::{Outcome, Status},
    wallet::Wallet as _,
};
use proptest::{collection::vec, option, prelude::*, sample::select};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value as Json};
use url::Url;

use crate::{fw::*, gen, kit::*, run};

// ---------------------------------------------------------------------------------------------
// mutations

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Chunk {
    Word(u8),
    Bytes(Vec<u8>),
    Text(String),
    /// `unit` repeated, after `shift` ASCII letters.
    Long { unit: u8, shift: u8, n: u16 },
    Nest { open: u8, n: u32, close: bool },
}

const WORDS: &[&[u8]] = &[
    b"", b"\"", b"{", b"}", b"[", b"]", b":", b",", b".", b"..", b"...", b"#", b"##", b"?", b"&", b"=", b"%", b"%0", b"%00", b"%ff%fe", b"+", b"/", b"//", b"://", b"@", b"\\", b"\\u0000", b"\\ud800",
    b"\\udc00\\ud800", b"\\u", b"\0", b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xef\xbb\xbf", b"null", b"true", b"0", b"-0", b"-", b"1e999999", b"1e-999999", b"-1", b"18446744073709551616",
    b"99999999999999999999999999999999999999", b"1.5", b"NaN", b"Infinity", b"{}", b"[]", b"{\"$serde_json::private::Number\":\"x\"}", b"{\"$serde_json::private::RawValue\":\"x\"}", b"did:", b"did:web:", b"did:key:z", b"did:jwk:",
    b"#0", b"x509_san_dns:", b"x509_hash:", b"redirect_uri:", b"decentralized_identifier:", b"origin:", b"ES256", b"none", b"HS256", b"EdDSA", b"ES256K", b"RS256", b"b64", b"=", b"==", b"https://", b"https://[::1", b"http://\xc3\xa9",
    b"data:,", b"javascript:1", b"file:///", b"openid4vp:", b"request=", b"request_uri=", b"client_id=", b"response=", b"vp_token=", b"state=", b"&&", b"\r\n", b"\xe2\x80\xae", b"\xf0\x9f\xa6\x80", b"A", b"\x00\x00\x00\x00", b"\x30\x84\xff\xff\xff\xff", b"\x30\x80", b"\x9f", b"\xbf", b"\x5f", b"\x7f", b"\xff\xff", b"\x9b\xff\xff\xff\xff\xff\xff\xff\xff", b"\x5b\xff\xff\xff\xff\xff\xff\xff\xff", b"\x7b\x7f\xff\xff\xff\xff\xff\xff\xff", b"\x1f", b"\xf6", b"\xf7", b"\xf9\x7e\x00", b"\xc2\x5b\x00", b"\x82",
];
const UNITS: &[&str] = &["a", "é", "漢", "🦀", "\u{0}", "\u{301}", ".", "=", "%", "%C3%A9", "[", "{\"a\":", "9", "a.b#", ":", "/", " ", "\\u00e9"];
const OPEN: &[(&[u8], &[u8])] = &[(b"[", b"]"), (b"{\"a\":", b"}"), (b"{\"keys\":[", b"]}"), (b"\x81", b""), (b"\xa1\x61a", b""), (b"\xd8\x18", b""), (b"\x9f", b"\xff"), (b"0\x82", b""), (b"\"", b""), (b"(", b")")];

impl Chunk {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Chunk::Word(i) => WORDS[*i as usize % WORDS.len()].to_vec(),
            Chunk::Bytes(b) => b.clone(),
            Chunk::Text(s) => s.clone().into_bytes(),
            Chunk::Long { unit, shift, n } => {
                let mut s = "x".repeat(*shift as usize);
                s.push_str(&UNITS[*unit as usize % UNITS.len()].repeat(*n as usize));
                s.into_bytes()
            }
            Chunk::Nest { open, n, close } => {
                let (o, c) = OPEN[*open as usize % OPEN.len()];
                let mut b = o.repeat(*n as usize);
                if *close {
                    b.extend(c.repeat(*n as usize));
                }
                b
            }
        }
    }
    fn text(&self) -> String {
        String::from_utf8_lossy(&self.bytes()).into_owned()
    }
}

fn chunk() -> BoxedStrategy<Chunk> {
    prop_oneof![
        8 => (0u8..WORDS.len() as u8).prop_map(Chunk::Word),
        2 => vec(any::<u8>(), 0..9).prop_map(Chunk::Bytes),
        3 => gen::text().prop_map(Chunk::Text),
        3 => (0u8..UNITS.len() as u8, 0u8..5, prop_oneof![3 => 0u16..40, 2 => 40u16..1200, 1 => 1200u16..5000]).prop_map(|(unit, shift, n)| Chunk::Long { unit, shift, n }),
        1 => (0u8..OPEN.len() as u8, prop_oneof![4 => 0u32..140, 2 => 140u32..3000, 1 => 3000u32..60_000], any::<bool>()).prop_map(|(open, n, close)| Chunk::Nest { open, n, close }),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum ByteOp {
    Cut(u16, u8),
    Truncate(u16),
    Insert(u16, Chunk),
    Replace(u16, u8, Chunk),
    Repeat(u16, u8, u16),
    Flip(u16, u8),
}

fn byte_op() -> BoxedStrategy<ByteOp> {
    prop_oneof![
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| ByteOp::Cut(a, b)),
        1 => any::<u16>().prop_map(ByteOp::Truncate),
        4 => (any::<u16>(), chunk()).prop_map(|(a, c)| ByteOp::Insert(a, c)),
        4 => (any::<u16>(), 0u8..12, chunk()).prop_map(|(a, l, c)| ByteOp::Replace(a, l, c)),
        1 => (any::<u16>(), any::<u8>(), 1u16..200).prop_map(|(a, l, n)| ByteOp::Repeat(a, l, n)),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| ByteOp::Flip(a, b)),
    ]
    .boxed()
}

fn mutate(b: &mut Vec<u8>, ops: &[ByteOp]) {
    for op in ops {
        let n = b.len();
        let at = |p: u16| if n == 0 { 0 } else { (p as usize * 31) % (n + 1) };
        match op {
            ByteOp::Cut(p, l) => {
                let a = at(*p);
                b.drain(a..(a + *l as usize).min(n));
            }
            ByteOp::Truncate(p) => b.truncate(at(*p)),
            ByteOp::Insert(p, c) => {
                let a = at(*p);
                b.splice(a..a, c.bytes());
            }
            ByteOp::Replace(p, l, c) => {
                let a = at(*p);
                b.splice(a..(a + *l as usize).min(n), c.bytes());
            }
            ByteOp::Repeat(p, l, times) => {
                let a = at(*p);
                let piece = b[a..(a + *l as usize).min(n)].to_vec();
                let more = piece.repeat(*times as usize);
                b.splice(a..a, more);
            }
            ByteOp::Flip(p, bit) => {
                let a = at(*p);
                if a < n {
                    b[a] ^= 1 << (bit % 8);
                }
            }
        }
        b.truncate(1 << 19);
    }
}

fn mutated(s: &str, ops: &[ByteOp]) -> String {
    let mut b = s.as_bytes().to_vec();
    mutate(&mut b, ops);
    String::from_utf8(b).unwrap_or_else(|e| String::from_utf8_lossy(e.as_bytes()).into_owned())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum NodeOp {
    Remove,
    Set(Json),
    Text(Chunk),
    /// Changes to a text node.
    Edit(Vec<ByteOp>),
    Rename(Chunk),
    Again,
    Empty,
    Wrap(u8, bool),
}

/// The node is the `.0`-th in depth-first order.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct JsonOp(u16, NodeOp);

fn json_op() -> BoxedStrategy<JsonOp> {
    (
        any::<u16>(),
        prop_oneof![
            3 => Just(NodeOp::Remove),
            4 => prop_oneof![
                3 => select(vec![json!(null), json!(true), json!(0), json!(-1), json!(""), json!([]), json!({}), json!([null]), json!([[]]), json!([{}]), json!({"": null}), json!("é"), json!(1.5), json!(u64::MAX)]),
                1 => gen::json_value(),
            ].prop_map(NodeOp::Set),
            4 => chunk().prop_map(NodeOp::Text),
            4 => vec(byte_op(), 1..3).prop_map(NodeOp::Edit),
            1 => chunk().prop_map(NodeOp::Rename),
            1 => Just(NodeOp::Again),
            2 => Just(NodeOp::Empty),
            1 => (0u8..110, any::<bool>()).prop_map(|(n, o)| NodeOp::Wrap(n, o)),
        ],
    )
        .prop_map(|(a, b)| JsonOp(a, b))
        .boxed()
}

fn count(j: &Json) -> usize {
    1 + match j {
        Json::Array(a) => a.iter().map(count).sum(),
        Json::Object(o) => o.values().map(count).sum::<usize>(),
        _ => 0,
    }
}

/// Applies `f` to the `n`-th node below or at `j`; `f` says whether the node is to be removed.
fn with_node(j: &mut Json, n: &mut usize, f: &dyn Fn(&mut Json) -> bool) -> bool {
    if *n == 0 {
        *n = usize::MAX;
        return f(j);
    }
    *n -= 1;
    match j {
        Json::Array(a) => {
            let mut gone = None;
            for (i, x) in a.iter_mut().enumerate() {
                if with_node(x, n, f) {
                    gone = Some(i);
                }
                if *n == usize::MAX {
                    break;
                }
            }
            if let Some(i) = gone {
                a.remove(i);
            }
        }
        Json::Object(o) => {
            let mut gone = None;
            for (k, x) in o.iter_mut() {
                if with_node(x, n, f) {
                    gone = Some(k.clone());
                }
                if *n == usize::MAX {
                    break;
                }
            }
            if let Some(k) = gone {
                o.remove(&k);
            }
        }
        _ => {}
    }
    false
}

fn mutate_json(j: &mut Json, ops: &[JsonOp]) {
    for JsonOp(at, op) in ops {
        // the topmost node is left alone more often than not
        let n = count(j);
        let mut i = if n == 1 { 0 } else { *at as usize % (n * 4) };
        if i >= n {
            i = 1 + i % (n - 1);
        }
        with_node(j, &mut i, &|x| {
            match op {
                NodeOp::Remove => return true,
                NodeOp::Set(v) => *x = v.clone(),
                NodeOp::Text(c) => *x = Json::String(c.text()),
                NodeOp::Edit(ops) => {
                    if let Json::String(s) = x {
                        *s = mutated(s, ops);
                    } else {
                        *x = Json::String(mutated(&x.to_string(), ops));
                    }
                }
                NodeOp::Rename(c) => {
                    if let Json::Object(o) = x {
                        if let Some(k) = o.keys().next().cloned() {
                            let v = o.remove(&k).unwrap();
                            o.insert(c.text(), v);
                        }
                    }
                }
                NodeOp::Again => {
                    if let Json::Array(a) = x {
                        let b = a.clone();
                        a.extend(b);
                    } else {
                        *x = json!([x.clone(), x.clone()]);
                    }
                }
                NodeOp::Empty => {
                    *x = match x {
                        Json::Array(_) => json!([]),
                        Json::Object(_) => json!({}),
                        Json::String(_) => json!(""),
                        _ => Json::Null,
                    }
                }
                NodeOp::Wrap(n, object) => {
                    for _ in 0..*n {
                        let inner = x.take();
                        *x = if *object { json!({ "keys": inner }) } else { json!([inner]) };
                    }
                }
            }
            false
        });
    }
}

// ---------------------------------------------------------------------------------------------
// using what came out of an entry point

/// Formats everything that is logged, as a subscriber that writes would.
struct Log;

struct Fields(String);

impl tracing::field::Visit for Fields {
    fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        use std::fmt::Write;
        self.0.clear();
        let _ = write!(self.0, "{v:?}");
    }
}

impl tracing::Subscriber for Log {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        e.record(&mut Fields(String::new()))
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

/// Counts and formats a result, as a caller that reports it would.
fn shown<T: std::fmt::Debug, E: std::fmt::Debug + std::fmt::Display>(r: &Result<T, E>, obs: &mut Obs) -> bool {
    obs.extra(1);
    match r {
        Ok(t) => {
            let _ = format!("{t:?}");
            true
        }
        Err(e) => {
            let _ = (format!("{e}"), format!("{e:#}"), format!("{e:?}"));
            false
        }
    }
}

fn use_query(q: &DcqlQuery) {
    for c in q.credentials() {
        let _ = (c.id(), c.format().to_string(), c.meta(), c.claims(), c.claim_sets(), c.trusted_authorities());
        for x in c.claims().into_iter().flat_map(|x| x.iter()) {
            let _ = (x.id(), x.path(), x.values(), x.namespace(), x.element_identifier(), x.claim_name());
        }
    }
    for s in q.credential_sets().into_iter().flat_map(|x| x.iter()) {
        let _ = (s.is_required(), s.options());
    }
    let _ = Json::from(q.clone());
}

fn use_formats(f: &ClaimFormatMap) {
    for (k, v) in f {
        let _ = (k.to_string(), VpFormats(f.clone()).supports_security_method(k, &"ES256".to_string()));
        let mut v = v.clone();
        v.add_alg("ES256".into());
        v.add_proof_type("x".into());
        let _ = serde_json::to_value(&v);
    }
}

fn use_metadata(m: &ClientMetadata, obs: &mut Obs) {
    if let Some(k) = m.jwks() {
        shown(&k, obs);
        for k in k.into_iter().flat_map(|k| k.keys) {
            shown(&compute_jwk_thumbprint(&Json::Object(k)), obs);
        }
    }
    if let Ok(f) = m.vp_formats() {
        use_formats(&f.0);
    }
    shown(&m.encrypted_response_enc_values_supported(), obs);
}

fn use_request(r: &AuthorizationRequestObject, obs: &mut Obs) {
    let _ = format!("{r:?}");
    let _ = (r.client_id(), r.client_id_scheme(), r.is_id_token_requested(), r.response_mode().is_jarm(), r.response_type(), r.return_uri().to_string(), r.nonce().to_string());
    if let Some(q) = r.dcql_query() {
        if shown(&q, obs) {
            use_query(&q.unwrap());
        }
    }
    if let Some(s) = r.state() {
        shown(&s, obs);
    }
    shown(&r.vp_formats(), obs);
    if let Ok(m) = r.client_metadata() {
        use_metadata(&m, obs);
    }
    shown(&ClientMetadata::resolve(r), obs);
    let _ = get_encryption_jwk_thumbprint(r);
    let o: UntypedObject = r.clone().into();
    super::c21::probe(&o);
    let _ = serde_json::to_string(r);
}

fn use_response(r: &AuthorizationResponse, obs: &mut Obs) {
    let _ = format!("{r:?}");
    match r.clone() {
        AuthorizationResponse::Unencoded(u) => {
            for (k, v) in u.vp_token().iter() {
                let _ = (k, v.len(), u.vp_token().get(k));
            }
            let _ = (u.state(), u.vp_token().is_empty());
            shown(&u.into_x_www_form_urlencoded(), obs);
        }
        AuthorizationResponse::Jwt(j) => {
            shown(&j.into_x_www_form_urlencoded(), obs);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// well-formed things to start from

const DID: &str = "did:web:verifier.example";

fn leaf() -> CertPlan {
    CertPlan {
        sans: vec![vec![San::Dns("verifier.example".into()), San::Uri("https://verifier.example".into()), San::Ip([10, 0, 0, 1])]],
        other_ext: true,
        ..CertPlan::simple(1, "verifier.example")
    }
}

fn client_id(kind: u8, der: &[u8]) -> String {
    match kind % 7 {
        0 => format!("decentralized_identifier:{DID}"),
        1 => "x509_san_dns:verifier.example".into(),
        2 => format!("x509_hash:{}", b64u(sha(der))),
        3 => "redirect_uri:https://verifier.example/r".into(),
        4 => "a client".into(),
        5 => "custom:x".into(),
        _ => "verifier_attestation:v".into(),
    }
}

fn seed_request(kind: u8, mode: u8, der: &[u8]) -> Json {
    let mode_name = ["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"][mode as usize % 4];
    let mut j = json!({
        "client_id": client_id(kind, der),
        "response_type": "vp_token",
        "response_mode": mode_name,
        "nonce": "n-0S6_WzA2Mj",
        "state": "s",
        "aud": "https://self-issued.me/v2",
        "expected_origins": ["https://verifier.example"],
        "transaction_data": ["eyJ0eXBlIjoieCJ9"],
        "verifier_info": [{"format": "jwt", "data": "x"}],
        "request_uri_method": "get",
        "dcql_query": {
            "credentials": [{
                "id": "c", "format": "mso_mdoc", "meta": {"doctype_value": "org.iso.18013.5.1.mDL"},
                "claims": [{"id": "a", "path": ["org.iso.18013.5.1", "family_name"], "values": ["x", 1, true], "intent_to_retain": true}, {"path": ["x", null, 2]}],
                "claim_sets": [["a"]], "trusted_authorities": [{"type": "aki", "values": ["x"]}], "multiple": true, "require_cryptographic_holder_binding": false
            }],
            "credential_sets": [{"options": [["c"]], "required": false}]
        },
        "client_metadata": {
            "jwks": {"keys": [public_enc_jwk(), {"kty": "RSA", "n": "sXchDaQebHnPiGvyDOAT4saGEUetSyo9", "e": "AQAB", "use": "sig"}]},
            "encrypted_response_enc_values_supported": ["A128GCM", "A256GCM"],
            "vp_formats_supported": {"jwt_vc_json": {"alg_values": ["ES256"]}, "ldp_vc": {"proof_type_values": ["x"]}, "mso_mdoc": {}}
        }
    });
    if mode % 4 < 2 {
        j["response_uri"] = json!("https://verifier.example/response/1");
    }
    j
}

fn public_enc_jwk() -> Json {
    let mut k = public_jwk_json(3);
    k["use"] = json!("enc");
    k["alg"] = json!("ECDH-ES");
    k["kid"] = json!("1");
    k
}

fn seed_header(kind: u8, der: &[u8], tail: &[u8]) -> Json {
    use base64::prelude::*;
    let mut h = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt"});
    match kind % 7 {
        0 => h["kid"] = json!(format!("{DID}#0")),
        1 | 2 => h["x5c"] = json!([BASE64_STANDARD.encode(der), BASE64_STANDARD.encode(tail)]),
        _ => {}
    }
    h
}

fn seed_wallet() -> Json {
    json!({
        "authorization_endpoint": "openid4vp:",
        "vp_formats_supported": {"jwt_vc_json": {"alg_values": ["ES256"]}, "mso_mdoc": {}},
        "issuer": "https://wallet.example",
        "response_types_supported": ["vp_token"],
        "client_id_prefixes_supported": ["decentralized_identifier", "x509_san_dns", "x509_hash", "redirect_uri", "custom", "verifier_attestation", "origin"],
        "request_object_signing_alg_values_supported": ["ES256", "EdDSA", "ES256K", "RS256", "HS256", "ES384"],
        "authorization_encryption_alg_values_supported": ["ECDH-ES"],
        "authorization_encryption_enc_values_supported": ["A128GCM"]
    })
}

fn wallet(j: Json, answer: HttpAnswer) -> Option<LibWallet<MockHttp>> {
    Some(LibWallet {
        metadata: serde_json::from_value(j).ok()?,
        http: MockHttp::new(answer),
        resolver: TableResolver::new(vec![(format!("{DID}#0"), 1)]),
        trusted_dids: None,
    })
}

// ---------------------------------------------------------------------------------------------
// requests

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Way {
    Value,
    Reference(u16),
    Direct,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Request {
    kind: u8,
    mode: u8,
    way: Way,
    header: Vec<JsonOp>,
    payload: Vec<JsonOp>,
    payload_bytes: Vec<ByteOp>,
    der: Vec<ByteOp>,
    signature: Option<Vec<ByteOp>>,
    jwt: Vec<ByteOp>,
    url: Vec<ByteOp>,
    metadata: Vec<JsonOp>,
    /// Another certificate than the usual one.
    #[serde(default)]
    cert: Option<CertPlan>,
}

fn few<T: std::fmt::Debug + Clone + 'static>(p: f64, s: BoxedStrategy<T>) -> BoxedStrategy<Vec<T>> {
    option::weighted(p, vec(s, 1..4)).prop_map(Option::unwrap_or_default).boxed()
}

fn request(_: Tier) -> BoxedStrategy<Request> {
    (
        (0u8..7, 0u8..4),
        prop_oneof![3 => Just(Way::Value), 3 => prop_oneof![6 => Just(200u16), 1 => 100u16..1000].prop_map(Way::Reference), 1 => Just(Way::Direct)],
        few(0.4, json_op()),
        few(0.4, json_op()),
        few(0.1, byte_op()),
        few(0.3, byte_op()),
        option::weighted(0.2, vec(byte_op(), 0..3)),
        few(0.15, byte_op()),
        few(0.15, byte_op()),
        (few(0.15, json_op()), option::weighted(0.5, (super::x509::cert_plan(), any::<u8>()).prop_map(|(c, style)| CertPlan { style, key: 1, ..c }))),
    )
        .prop_map(|((kind, mode), way, header, payload, payload_bytes, der, signature, jwt, url, (metadata, cert))| Request {
            cert,
            kind,
            mode,
            way,
            header,
            payload,
            payload_bytes,
            der,
            signature,
            jwt,
            url,
            metadata,
        })
        .boxed()
}

fn test_request(p: &Request, obs: &mut Obs) -> Check {
    let _log = tracing::subscriber::set_default(Log);
    let mut der = p.cert.clone().unwrap_or_else(leaf).der();
    let tail = CertPlan::simple(2, "ca.example").der();
    mutate(&mut der, &p.der);
    let mut header = seed_header(p.kind, &der, &tail);
    mutate_json(&mut header, &p.header);
    let mut payload = seed_request(p.kind, p.mode, &der);
    mutate_json(&mut payload, &p.payload);
    let mut body = payload.to_string().into_bytes();
    mutate(&mut body, &p.payload_bytes);
    let mut jwt = sign_jws_raw(1, &header.to_string(), &body);
    if let Some(ops) = &p.signature {
        let (head, sig) = jwt.rsplit_once('.').unwrap();
        let mut sig = unb64u(sig).unwrap();
        mutate(&mut sig, ops);
        jwt = format!("{head}.{}", b64u(sig));
    }
    jwt = mutated(&jwt, &p.jwt);

    // the parts on their own
    if let Ok(o) = serde_json::from_slice::<UntypedObject>(&body) {
        super::c21::probe(&o);
        let r: Result<AuthorizationRequestObject, _> = o.clone().try_into();
        if shown(&r, obs) {
            let r = r.unwrap();
            use_request(&r, obs);
            obs.label("request object read");
            let m: WalletMetadata = metadata(seed_wallet());
            obs.extra(3);
            let resolver = TableResolver::new(vec![(format!("{DID}#0"), 1)]);
            let a = run!(did::verify_with_resolver(&m, &r, jwt.clone(), None, &resolver));
            let b = x509_san::validate::<P256Verifier>(&m, &r, jwt.clone(), None);
            let c = x509_hash::validate::<P256Verifier>(&m, &r, jwt.clone(), Some(&[]));
            for x in [&a, &b, &c] {
                shown(x, obs);
            }
            if a.is_ok() || b.is_ok() || c.is_ok() {
                obs.label("verified");
            }
        }
    }
    let ar: Result<AuthorizationRequestObject, _> = serde_json::from_slice(&body);
    shown(&ar, obs);

    // through the wallet
    let mut meta = seed_wallet();
    mutate_json(&mut meta, &p.metadata);
    let (status, indirection) = match &p.way {
        Way::Value => (200, RequestIndirection::ByValue { request: jwt.clone() }),
        Way::Reference(s) => (*s, RequestIndirection::ByReference { request_uri: "https://verifier.example/request/1".parse().unwrap() }),
        Way::Direct => match serde_json::from_slice(&body) {
            Ok(o) => (200, RequestIndirection::Direct(o)),
            Err(_) => (200, RequestIndirection::ByValue { request: String::from_utf8_lossy(&body).into_owned() }),
        },
    };
    let Some(w) = wallet(meta, HttpAnswer::Answer { status, body: jwt.clone().into_bytes() }).or_else(|| wallet(seed_wallet(), HttpAnswer::Answer { status, body: jwt.into_bytes() })) else {
        return Ok(());
    };
    let endpoint = w.metadata.authorization_endpoint().0.clone();
    let outer = AuthorizationRequest {
        client_id: Some(client_id(p.kind, &der)),
        request_indirection: indirection,
    };
    let checked = run!(outer.clone().validate(&w));
    if shown(&checked, obs) {
        obs.label("accepted");
        use_request(&checked.unwrap(), obs);
    }
    let url = outer.to_url(endpoint.clone());
    shown(&url, obs);
    let text = mutated(url.as_ref().map(|u| u.as_str()).unwrap_or("openid4vp:?request=a"), &p.url);
    obs.nontrivial();
    if let Some((_, q)) = text.split_once('?') {
        let r = AuthorizationRequest::from_query_params(q);
        shown(&r, obs);
    }
    if let Ok(u) = Url::parse(&text) {
        shown(&AuthorizationRequest::from_url(u.clone(), &endpoint), obs);
        shown(&run!(w.validate_request(u)), obs);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// JSON

#[derive(Debug, Clone, Serialize, Deserialize)]
struct JsonPlan {
    seed: u8,
    node: Vec<JsonOp>,
    bytes: Vec<ByteOp>,
    more: Option<Json>,
}

fn json_seed(i: u8) -> Json {
    let der = leaf().der();
    match i % 12 {
        0 => seed_request(1, 0, &der)["dcql_query"].take(),
        1 => seed_wallet(),
        2 => json!({"q": ["text", {"@context": ["x"], "type": "VerifiablePresentation"}], "r": []}),
        3 => json!({"vp_token": {"q": ["a.b.c"]}, "state": "s"}),
        4 => seed_request(1, 1, &der)["client_metadata"].take(),
        5 => public_enc_jwk(),
        6 => json!({"jwt_vc_json": {"alg_values_supported": ["ES256"]}}),
        7 => json!({"jwt_vc_json": {"alg_values": ["ES256"]}, "ldp_vc": {"proof_type_values": ["p"]}, "mso_mdoc": {}, "dc+sd-jwt": {"sd-jwt_alg_values": ["ES256"]}}),
        8 => json!({"Complete": {"Success": {"info": {"a": [1]}}}}),
        9 => json!({"client_id": "c", "request_uri": "https://verifier.example/r"}),
        10 => json!({"response": "a.b.c.d.e"}),
        _ => seed_request(0, 2, &der),
    }
}

fn json_plan(_: Tier) -> BoxedStrategy<JsonPlan> {
    (0u8..12, few(0.8, json_op()), few(0.25, byte_op()), option::weighted(0.1, gen::json_value()))
        .prop_map(|(seed, node, bytes, more)| JsonPlan { seed, node, bytes, more })
        .boxed()
}

fn reading<T: DeserializeOwned + std::fmt::Debug + Serialize>(text: &[u8], value: Option<&Json>, obs: &mut Obs) -> Option<T> {
    let a: Result<T, _> = serde_json::from_slice(text);
    let ok = shown(&a, obs);
    if let Some(v) = value {
        let b: Result<T, _> = serde_json::from_value(v.clone());
        shown(&b, obs);
    }
    if ok {
        let t = a.unwrap();
        let _ = serde_json::to_string(&t).map_err(|e| e.to_string());
        return Some(t);
    }
    None
}

fn test_json(p: &JsonPlan, obs: &mut Obs) -> Check {
    let _log = tracing::subscriber::set_default(Log);
    let mut j = json_seed(p.seed);
    mutate_json(&mut j, &p.node);
    if let Some(m) = &p.more {
        j = m.clone();
    }
    let mut text = j.to_string().into_bytes();
    mutate(&mut text, &p.bytes);
    let value: Option<Json> = serde_json::from_slice(&text).ok();
    if value.is_some() {
        obs.label("still JSON");
    }
    obs.nontrivial();
    let v = value.as_ref();
    if let Some(q) = reading::<DcqlQuery>(&text, v, obs) {
        obs.label("query");
        use_query(&q);
    }
    if let Some(mut m) = reading::<WalletMetadata>(&text, v, obs) {
        obs.label("metadata");
        let _ = (m.authorization_endpoint(), m.vp_formats_supported());
        shown(&m.add_request_object_signing_alg_values_supported(ssi_jwk::Algorithm::ES256), obs);
        shown(&m.add_client_id_prefixes_supported(&[]), obs);
        m.vp_formats_supported_mut().0.insert(ClaimFormatDesignation::MsoMDoc, ClaimFormatPayload::AlgValues(vec![]));
        let _ = serde_json::to_string(&m);
        let w = LibWallet { metadata: m, http: MockHttp::none(), resolver: TableResolver::default(), trusted_dids: Some(vec![]) };
        for mode in 0..2 {
            let ar = AuthorizationRequest {
                client_id: None,
                request_indirection: RequestIndirection::Direct(uo(seed_request(4, mode, b""))),
            };
            shown(&run!(ar.validate(&w)), obs);
        }
    }
    if let Some(t) = reading::<VpToken>(&text, v, obs) {
        let _ = Json::from(t);
    }
    if let Some(r) = reading::<AuthorizationResponse>(&text, v, obs) {
        obs.label("response");
        use_response(&r, obs);
    }
    reading::<UnencodedAuthorizationResponse>(&text, v, obs);
    if let Some(f) = reading::<ClaimFormat>(&text, v, obs) {
        let _ = f.designation().to_string();
    }
    if let Some(f) = reading::<ClaimFormatMap>(&text, v, obs) {
        use_formats(&f);
    }
    reading::<ClaimFormatPayload>(&text, v, obs);
    reading::<ClaimFormatDesignation>(&text, v, obs);
    reading::<ResponseMode>(&text, v, obs);
    reading::<Status>(&text, v, obs);
    reading::<Outcome>(&text, v, obs);
    if let Some(a) = reading::<AuthorizationRequest>(&text, v, obs) {
        obs.label("authorization request");
        shown(&a.to_url("openid4vp://x/y".parse().unwrap()), obs);
    }
    if let Some(r) = reading::<AuthorizationRequestObject>(&text, v, obs) {
        obs.label("request object");
        use_request(&r, obs);
    }
    if let Some(v) = v {
        shown(&compute_jwk_thumbprint(v), obs);
        shown(&JWKs::try_from(v.clone()), obs);
        if v.is_object() {
            let o = uo(v.clone());
            super::c21::probe(&o);
            shown(&UnencodedAuthorizationResponse::try_from(o.clone()), obs);
            use_metadata(&ClientMetadata(o), obs);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// forms, answers, CBOR

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Wire {
    seed: u8,
    node: Vec<JsonOp>,
    ops: Vec<ByteOp>,
    status: u16,
    uri: Vec<ByteOp>,
}

fn wire(_: Tier) -> BoxedStrategy<Wire> {
    (any::<u8>(), few(0.6, json_op()), few(0.6, byte_op()), prop_oneof![5 => Just(200u16), 1 => 100u16..1000], few(0.2, byte_op()))
        .prop_map(|(seed, node, ops, status, uri)| Wire { seed, node, ops, status, uri })
        .boxed()
}

fn test_form(p: &Wire, obs: &mut Obs) -> Check {
    let _log = tracing::subscriber::set_default(Log);
    obs.nontrivial();
    let mut token = json_seed(2);
    mutate_json(&mut token, &p.node);
    let mut form = match p.seed % 3 {
        0 => serde_urlencoded::to_string([("vp_token", token.to_string()), ("state", "s".into())]),
        1 => serde_urlencoded::to_string([("response", "a.b.c.d.e")]),
        _ => serde_urlencoded::to_string([("response", "a.b.c.d.e".to_string()), ("vp_token", token.to_string())]),
    }
    .map_err(|e| e.to_string())?
    .into_bytes();
    mutate(&mut form, &p.ops);
    let r = AuthorizationResponse::from_x_www_form_urlencoded(&form);
    if shown(&r, obs) {
        obs.label("read");
        use_response(&r.unwrap(), obs);
    }
    if let Ok(s) = std::str::from_utf8(&form) {
        shown(&AuthorizationRequest::from_query_params(s), obs);
    }
    Ok(())
}

fn test_answer(p: &Wire, obs: &mut Obs) -> Check {
    let _log = tracing::subscriber::set_default(Log);
    obs.nontrivial();
    let mut answer = json!({"redirect_uri": "https://verifier.example/done#response_code=1", "x": [1, {}]});
    mutate_json(&mut answer, &p.node);
    let mut body = answer.to_string().into_bytes();
    mutate(&mut body, &p.ops);
    let uri = mutated("https://verifier.example:8443/response?x=1", &p.uri);
    let Ok(request) = aro(json!({"response_type": "vp_token", "nonce": "n", "response_uri": uri, "response_mode": "direct_post"})) else {
        obs.label("address refused");
        return Ok(());
    };
    let w = RecordingWallet::new(metadata(json!({})), MockHttp::new(HttpAnswer::Answer { status: p.status, body: body.clone() }), true);
    let r = run!(w.submit_response(request, AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(VpToken::new()))));
    if shown(&r, obs) {
        obs.label("answer taken");
    }
    // the same bytes as the answer to a request by reference, at a hostile address
    if let Ok(request_uri) = Url::parse(&uri) {
        let ar = AuthorizationRequest { client_id: None, request_indirection: RequestIndirection::ByReference { request_uri } };
        shown(&run!(ar.resolve_request(&MockHttp::new(HttpAnswer::Answer { status: p.status, body }))), obs);
    }
    Ok(())
}

fn test_cbor(p: &Wire, obs: &mut Obs) -> Check {
    let _log = tracing::subscriber::set_default(Log);
    obs.nontrivial();
    let t = sha("thumbprint");
    let t = (p.seed & 4 != 0).then_some(&t[..]);
    let h = Handover::new("client", "nonce", t, "https://verifier.example").map_err(|e| e.to_string())?;
    let d = DcApiHandover::new("https://verifier.example", "nonce", t).map_err(|e| e.to_string())?;
    let mut b = match p.seed % 4 {
        0 => h.to_cbor_bytes(),
        1 => d.to_cbor_bytes(),
        2 => SessionTranscript::new(h).to_cbor_bytes(),
        _ => SessionTranscript::new(d).to_cbor_bytes(),
    }
    .map_err(|e| e.to_string())?;
    mutate(&mut b, &p.ops);
    fn from<T: DeserializeOwned + std::fmt::Debug>(b: &[u8], obs: &mut Obs) -> bool {
        shown(&ciborium::from_reader::<T, _>(b).map_err(|e| e.to_string()), obs)
    }
    let n = [
        from::<Handover>(&b, obs),
        from::<DcApiHandover>(&b, obs),
        from::<SessionTranscript>(&b, obs),
        from::<SessionTranscript<DcApiHandover>>(&b, obs),
        from::<SessionTranscript<SessionTranscript>>(&b, obs),
    ];
    if n.contains(&true) {
        obs.label("read");
    }
    // hostile texts in a request's bound values
    let text = mutated("x509_san_dns:verifier.example", &p.uri);
    shown(&Handover::new(&text, &text, Some(&b), &text).and_then(|h| SessionTranscript::new(h).to_cbor_bytes()), obs);
    shown(&DcApiHandover::new(&text, &text, Some(&b)).and_then(|h| h.to_cbor_bytes()), obs);
    Ok(())
}

fn examples_json() -> Vec<JsonPlan> {
    // each node of each seed replaced by each simple value, systematically
    let mut out = vec![];
    for seed in 0..12u8 {
        let n = count(&json_seed(seed));
        for at in 0..n {
            for v in [json!(null), json!(0), json!(""), json!([]), json!({}), json!([[]]), json!([0]), json!("é")] {
                out.push(JsonPlan { seed, node: vec![JsonOp(at as u16, NodeOp::Set(v))], bytes: vec![], more: None });
            }
            out.push(JsonPlan { seed, node: vec![JsonOp(at as u16, NodeOp::Remove)], bytes: vec![], more: None });
        }
    }
    out
}

fn examples_request() -> Vec<Request> {
    let mut out = vec![];
    let base = Request {
        cert: None,
        kind: 0,
        mode: 0,
        way: Way::Value,
        header: vec![],
        payload: vec![],
        payload_bytes: vec![],
        der: vec![],
        signature: None,
        jwt: vec![],
        url: vec![],
        metadata: vec![],
    };
    for kind in 0..3u8 {
        let n = count(&seed_header(kind, b"x", b"y"));
        for at in 0..n {
            for v in [json!(null), json!(0), json!(""), json!([]), json!({}), json!([null]), json!([""]), json!("é"), json!("#"), json!("a#"), json!("="), json!(["="])] {
                out.push(Request { kind, header: vec![JsonOp(at as u16, NodeOp::Set(v))], ..base.clone() });
            }
            out.push(Request { kind, header: vec![JsonOp(at as u16, NodeOp::Remove)], ..base.clone() });
        }
        for s in [vec![], vec![ByteOp::Truncate(0)], vec![ByteOp::Insert(0, Chunk::Bytes(vec![0]))]] {
            out.push(Request { kind, signature: Some(s), ..base.clone() });
        }
    }
    out
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        level: "exploration",
        assumptions: &[
            "input up to 512 KiB; threads with 64 MiB of stack; the nesting of JSON values handed over already parsed stays below that of what serde_json parses",
            "the dependencies that parse on the library's behalf (serde_json, url, x509-cert, ssi, ciborium) are part of what is run",
        ],
        subs: vec![
            Box::new(SubCheck { name: "requests", rule: "a request (kind of client, header, payload, certificate, signature, URL, wallet metadata) with changes at chosen places, through the wallet and each verification; non-trivial: all", quick: 24_000, thorough: 1_000_000, strat: request, examples: examples_request, test: test_request }),
            Box::new(SubCheck { name: "json", rule: "a JSON document of the protocol with changes at chosen places, read as every type and used; non-trivial: all", quick: 20_000, thorough: 1_000_000, strat: json_plan, examples: examples_json, test: test_json }),
            Box::new(SubCheck { name: "forms", rule: "a response form with changes; non-trivial: all", quick: 40_000, thorough: 2_000_000, strat: wire, examples: no_examples, test: test_form }),
            Box::new(SubCheck { name: "answers", rule: "an HTTP answer and response address with changes; non-trivial: all", quick: 40_000, thorough: 2_000_000, strat: wire, examples: no_examples, test: test_answer }),
            Box::new(SubCheck { name: "cbor", rule: "an encoded handover or transcript with changes; non-trivial: all", quick: 60_000, thorough: 3_000_000, strat: wire, examples: no_examples, test: test_cbor }),
        ],
    }
}
