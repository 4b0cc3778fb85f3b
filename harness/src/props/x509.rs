//! Shared by C03 and C04: requests of clients identified by a certificate.
use std::cell::RefCell;

use anyhow::{bail, Result};
use openid4vp::{
    core::{
        authorization_request::{
            verification::{
                verifier::{P256Verifier, Verifier},
                x509_hash, x509_san,
            },
            AuthorizationRequest, RequestIndirection,
        },
        metadata::WalletMetadata,
    },
    wallet::Wallet as _,
};
use base64::prelude::*;
use proptest::{prelude::*, sample::select};

use crate::gen::{seq, vec};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};
use x509_cert::{
    der::{asn1::BitString, Decode, Encode},
    spki::{ObjectIdentifier, SubjectPublicKeyInfoRef},
    Certificate,
};

use super::tamper::*;
use crate::{gen, ensure, ensure_eq, fw::*, kit::*, run};

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Dns,
    Hash,
}

impl Kind {
    fn prefix(self) -> &'static str {
        match self {
            Kind::Dns => "x509_san_dns",
            Kind::Hash => "x509_hash",
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum X5c {
    Good,
    /// Unpadded base64 in the header.
    Unpadded,
    Missing,
    Empty,
    NotArray,
    FirstNotText(Json),
    /// The leaf as bare text instead of an array.
    BareText,
    /// The first entry is not base64.
    BadBase64,
    /// base64url instead of base64.
    UrlAlphabet,
    /// DER cut short, or with bytes after it, or with one byte of the tag changed.
    CutDer,
    LongDer,
    BadTag,
    /// Something that is no certificate before the leaf.
    JunkFirst,
    /// Junk after the leaf.
    JunkLast,
    /// Other JSON after the leaf.
    LastNotText(Json),
    /// Very many certificates after the leaf.
    Many(u16),
    /// The first entry, changed.
    Twist(gen::Twist),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Name {
    /// One of the leaf's own names (DNS name, or hash).
    Own(u8),
    /// A name of another certificate of the chain.
    Later(u8),
    /// Near misses.
    Near(u8, u8),
    Twist(u8, gen::Twist),
    Absent,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    kind: Kind,
    chain: Vec<CertPlan>,
    /// 0: the leaf's P-256 key, 1: another curve's identifier, 2: a point that is not on the curve,
    /// 3: the leaf's key, but an extension states its default criticality (not canonical DER)
    spki: u8,
    name: Name,
    /// 0 with the prefix, 1 bare, 2 another prefix, 3 the prefix twice
    prefix: u8,
    x5c: X5c,
    alg: Option<Json>,
    wallet_algs: Option<Vec<String>>,
    /// None: the leaf's key signs.
    sign: Option<u8>,
    tamper: Tamper,
    extra_header: u8,
    via_wallet: bool,
    nonce: String,
    claims: Map<String, Json>,
    #[serde(default)]
    echoes: Vec<Echo>,
    /// Roots the caller gives (which are not consulted): none, or a list with bits 1: the leaf,
    /// 2: the chain's end, 4: another certificate.
    #[serde(default)]
    roots: Option<u8>,
    /// Use a signature scheme of the caller's: (handles the key, the signature verifies)
    scheme: Option<(bool, bool)>,
    /// Similar requests that were verified before (see [similar]).
    #[serde(default)]
    before: Vec<u8>,
}

pub fn san() -> BoxedStrategy<San> {
    prop_oneof![
        6 => gen::dns_name().prop_map(San::Dns),
        1 => gen::dns_name().prop_map(|d| San::Uri(format!("https://{d}"))),
        1 => gen::dns_name().prop_map(San::Uri),
        1 => gen::dns_name().prop_map(San::Mail),
        1 => any::<[u8; 4]>().prop_map(San::Ip),
        1 => gen::dns_name().prop_map(San::Dir),
    ]
    .boxed()
}

/// Names like those given, but many of them, and the given ones last.
fn many_names(v: &[San], n: usize) -> Vec<San> {
    let mut names: Vec<San> = (0..n).map(|i| San::Dns(format!("n{i}.example"))).collect();
    names.extend(v.iter().cloned());
    names
}

pub fn cert_plan() -> BoxedStrategy<CertPlan> {
    (
        0u8..5,
        0u8..5,
        0u16..50,
        gen::dns_name(),
        prop_oneof![
            1 => Just(vec![]),
            8 => vec(san(), 1..4).prop_map(|v| vec![v]),
            1 => vec(vec(san(), 1..3), 2..3),
            1 => (vec(san(), 1..4), gen::many()).prop_map(|(v, n)| vec![many_names(&v, n)]),
        ],
        prop::bool::weighted(0.1),
        any::<bool>(),
        prop_oneof![3 => Just(0u8), 2 => select(vec![1u8, 2, 3, 8, 9, 32]), 1 => (0u8..16, any::<bool>()).prop_map(|(s, i)| s | if i { 32 } else { 0 })],
    )
        .prop_map(|(key, issuer_key, serial, cn, sans, broken_san, other_ext, style)| CertPlan {
            key,
            issuer_key,
            serial,
            cn,
            sans,
            broken_san,
            other_ext,
            style,
        })
        .boxed()
}

fn plan(kind: Kind) -> BoxedStrategy<Plan> {
    (
        (
            seq(cert_plan(), 1..4),
            prop_oneof![20 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 3 => Just(3u8)],
        ),
        prop_oneof![
            10 => any::<u8>().prop_map(Name::Own),
            2 => any::<u8>().prop_map(Name::Later),
            4 => (any::<u8>(), 0u8..16).prop_map(|(a, b)| Name::Near(a, b)),
            4 => (any::<u8>(), gen::twist()).prop_map(|(a, t)| Name::Twist(a, t)),
            1 => Just(Name::Absent),
        ],
        prop_oneof![10 => Just(0u8), 4 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)],
        prop_oneof![
            24 => Just(X5c::Good),
            2 => Just(X5c::Unpadded),
            1 => Just(X5c::Missing),
            1 => Just(X5c::Empty),
            1 => Just(X5c::NotArray),
            1 => select(vec![json!(null), json!(1), json!(["x"]), json!({})]).prop_map(X5c::FirstNotText),
            1 => Just(X5c::BareText),
            1 => Just(X5c::BadBase64),
            1 => Just(X5c::UrlAlphabet),
            1 => Just(X5c::CutDer),
            1 => Just(X5c::LongDer),
            1 => Just(X5c::BadTag),
            1 => Just(X5c::JunkFirst),
            2 => Just(X5c::JunkLast),
            2 => select(vec![json!(null), json!(1), json!(["x"]), json!({}), json!("")]).prop_map(X5c::LastNotText),
            3 => gen::twist().prop_map(X5c::Twist),
            1 => gen::many().prop_map(|n| X5c::Many(n as u16)),
        ],
        (alg_header(), wallet_algs(), focus()),
        prop_oneof![12 => Just(None), 2 => (0u8..5).prop_map(Some)],
        tamper(),
        (extra_header(), prop::bool::weighted(0.4), "[a-z]{1,4}", (claims(), echoes(), prop::option::weighted(0.4, 0u8..8)), history()),
        prop_oneof![3 => Just(None), 1 => any::<(bool, bool)>().prop_map(Some), 1 => Just(Some((true, true)))],
    )
        .prop_map(
            move |((chain, spki), name, prefix, x5c, (alg, wallet_algs, focus), sign, tamper, (extra_header, via_wallet, nonce, (claims, echoes, roots), before), scheme)| focused(Plan {
                kind,
                chain,
                spki,
                name,
                prefix,
                x5c,
                alg,
                wallet_algs,
                sign,
                tamper,
                extra_header,
                via_wallet,
                nonce,
                claims,
                echoes,
                roots,
                scheme,
                before,
            }, focus),
        )
        .boxed()
}

/// The plan with at most one thing wrong.
fn focused(mut p: Plan, focus: Option<u8>) -> Plan {
    let Some(k) = focus else { return p };
    let k = k % 10;
    if k != 0 {
        p.spki = if p.spki == 3 { 3 } else { 0 };
    }
    if k != 1 && !matches!(p.name, Name::Own(_)) {
        p.name = Name::Own(0);
    }
    if k != 2 {
        p.prefix = 0;
    }
    if k != 3 {
        p.x5c = X5c::Good;
    }
    if k != 4 {
        p.alg = Some(json!("ES256"));
    }
    if k != 5 {
        p.wallet_algs = Some(vec!["EdDSA".into(), "ES256".into()]);
    }
    if k != 6 {
        p.sign = None;
    }
    if k != 7 {
        p.tamper = Tamper::None;
    }
    if k != 8 && p.extra_header >= 7 {
        p.extra_header = 0;
    }
    p
}

fn strat_dns(_: Tier) -> BoxedStrategy<Plan> {
    plan(Kind::Dns)
}

fn strat_hash(_: Tier) -> BoxedStrategy<Plan> {
    plan(Kind::Hash)
}

fn pick<T: Clone>(v: &[T], i: u8) -> Option<T> {
    if v.is_empty() {
        None
    } else {
        Some(v[i as usize % v.len()].clone())
    }
}

struct Made {
    leaf: Vec<u8>,
    jwt: String,
    client_id: Option<String>,
    payload: Json,
}

/// The length of the header of a DER element.
fn header_len(der: &[u8]) -> usize {
    2 + if der[1] < 0x80 { 0 } else { (der[1] & 0x7f) as usize }
}

fn content_len(der: &[u8]) -> usize {
    if der[1] < 0x80 {
        der[1] as usize
    } else {
        der[2..header_len(der)].iter().fold(0, |n, b| n << 8 | *b as usize)
    }
}

/// Inserts an element at an offset of a DER element, correcting the lengths around it.
fn insert_at(der: &[u8], at: usize, new: &[u8]) -> Vec<u8> {
    let (h, mut content) = (header_len(der), vec![]);
    let (mut i, mut done) = (h, false);
    while i < der.len() {
        let n = header_len(&der[i..]) + content_len(&der[i..]);
        if !done && at == i {
            content.extend(new);
            done = true;
        }
        if !done && at > i && at < i + n {
            content.extend(insert_at(&der[i..i + n], at - i, new));
            done = true;
        } else {
            content.extend(&der[i..i + n]);
        }
        i += n;
    }
    if !done {
        content.extend(new);
    }
    let mut out = vec![der[0]];
    match content.len() {
        n @ 0..=0x7f => out.push(n as u8),
        n @ 0x80..=0xff => out.extend([0x81, n as u8]),
        n => out.extend([0x82, (n >> 8) as u8, n as u8]),
    }
    out.extend(content);
    out
}

fn leaf_der(p: &Plan) -> Vec<u8> {
    if p.spki == 0 {
        return p.chain[0].der();
    }
    let mut c = p.chain[0].build();
    if p.spki == 3 {
        let der = p.chain[0].der();
        let ext = c.tbs_certificate.extensions.iter().flatten().find(|e| !e.critical);
        let at = ext.and_then(|e| {
            let e = (e.to_der().unwrap(), e.extn_id.to_der().unwrap().len());
            let i = der.windows(e.0.len()).position(|w| w == e.0)?;
            Some(i + header_len(&e.0) + e.1)
        });
        return at.map(|at| insert_at(&der, at, &[1, 1, 0])).unwrap_or(der);
    }
    let spki = &mut c.tbs_certificate.subject_public_key_info;
    if p.spki == 1 {
        let oid = ObjectIdentifier::new_unwrap("1.3.132.0.34");
        spki.algorithm.parameters = Some(x509_cert::der::Any::from(&oid));
    } else {
        let mut b = spki.subject_public_key.raw_bytes().to_vec();
        b[40] ^= 1;
        spki.subject_public_key = BitString::from_bytes(&b).unwrap();
    }
    c.to_der().unwrap()
}

fn names(kind: Kind, plan: &CertPlan, der: &[u8]) -> Vec<String> {
    match kind {
        Kind::Dns => plan.dns_names(),
        Kind::Hash => vec![b64u(sha(der))],
    }
}

fn near(kind: Kind, own: &str, leaf: &CertPlan, der: &[u8], k: u8) -> String {
    let other: Vec<String> = leaf
        .sans
        .iter()
        .flatten()
        .filter_map(|s| match s {
            San::Uri(u) => Some(u.clone()),
            San::Mail(u) => Some(u.clone()),
            San::Dir(u) => Some(u.clone()),
            San::Ip(i) => Some(format!("{}.{}.{}.{}", i[0], i[1], i[2], i[3])),
            San::Dns(_) => None,
        })
        .collect();
    match (kind, k) {
        (_, 0) => own.to_uppercase(),
        (_, 1) => own.to_lowercase(),
        (_, 2) => format!("{own} "),
        (_, 3) => own.chars().skip(1).collect(),
        (_, 4) => {
            let mut s = own.to_string();
            s.pop();
            s
        }
        (Kind::Dns, 5) => format!("sub.{own}"),
        (Kind::Dns, 6) => own.split_once('.').map(|x| x.1.to_string()).unwrap_or_default(),
        (Kind::Dns, 7) => format!("{own}."),
        (Kind::Dns, 8) => own.replacen('*', "sub", 1),
        (Kind::Dns, 9) => format!("https://{own}"),
        (Kind::Dns, 10) => pick(&other, 0).unwrap_or_default(),
        (Kind::Dns, 11) => format!("*.{own}"),
        (Kind::Dns, 12) => own.split_once('.').map(|x| format!("*.{}", x.1)).unwrap_or_default(),
        (Kind::Dns, 13 | 14) => gen::without_word(own),
        (Kind::Dns, _) => leaf.cn.clone(),
        (Kind::Hash, 5) => BASE64_URL_SAFE.encode(sha(der)),
        (Kind::Hash, 6) => BASE64_STANDARD.encode(sha(der)),
        (Kind::Hash, 7) => hex(&sha(der)),
        (Kind::Hash, 8) => b64u(sha(sha(der))),
        (Kind::Hash, 9) => b64u(sha(BASE64_STANDARD.encode(der))),
        (Kind::Hash, 10) => {
            let c = Certificate::from_der(der).unwrap();
            b64u(sha(c.tbs_certificate.to_der().unwrap()))
        }
        (Kind::Hash, 11) => BASE64_STANDARD_NO_PAD.encode(sha(der)),
        (Kind::Hash, 12) => own.replacen('-', "+", 1),
        (Kind::Hash, _) => {
            let c = Certificate::from_der(der).unwrap();
            b64u(sha(c.tbs_certificate.subject_public_key_info.to_der().unwrap()))
        }
    }
}

fn make(p: &Plan) -> Made {
    let leaf = leaf_der(p);
    let ders: Vec<Vec<u8>> = std::iter::once(leaf.clone())
        .chain(p.chain[1..].iter().map(|c| c.der()))
        .collect();
    let own = names(p.kind, &p.chain[0], &leaf);
    let name = match &p.name {
        Name::Own(i) => pick(&own, *i),
        Name::Later(i) => {
            let later: Vec<String> = p.chain[1..]
                .iter()
                .zip(&ders[1..])
                .flat_map(|(c, d)| names(p.kind, c, d))
                .collect();
            pick(&later, *i)
        }
        Name::Near(i, k) => Some(near(p.kind, &pick(&own, *i).unwrap_or_default(), &p.chain[0], &leaf, *k)),
        Name::Twist(i, t) => Some(t.apply(&pick(&own, *i).unwrap_or_default())),
        Name::Absent => None,
    };
    let mut b64: Vec<Json> = ders.iter().map(|d| json!(BASE64_STANDARD.encode(d))).collect();
    let x5c = match &p.x5c {
        X5c::Good => Some(json!(b64)),
        X5c::Unpadded => {
            b64[0] = json!(BASE64_STANDARD_NO_PAD.encode(&leaf));
            Some(json!(b64))
        }
        X5c::Missing => None,
        X5c::Empty => Some(json!([])),
        X5c::NotArray => Some(json!({"0": b64[0]})),
        X5c::BareText => Some(b64[0].clone()),
        X5c::FirstNotText(j) => {
            b64[0] = j.clone();
            Some(json!(b64))
        }
        X5c::BadBase64 => {
            b64[0] = json!(format!("*{}", b64[0].as_str().unwrap()));
            Some(json!(b64))
        }
        X5c::UrlAlphabet => {
            b64[0] = json!(BASE64_URL_SAFE_NO_PAD.encode(&leaf));
            Some(json!(b64))
        }
        X5c::CutDer => {
            b64[0] = json!(BASE64_STANDARD.encode(&leaf[..leaf.len() - 1]));
            Some(json!(b64))
        }
        X5c::LongDer => {
            let mut l = leaf.clone();
            l.push(0);
            b64[0] = json!(BASE64_STANDARD.encode(l));
            Some(json!(b64))
        }
        X5c::BadTag => {
            let mut l = leaf.clone();
            l[0] = 0x31;
            b64[0] = json!(BASE64_STANDARD.encode(l));
            Some(json!(b64))
        }
        X5c::JunkFirst => {
            b64.insert(0, json!("AAAA"));
            Some(json!(b64))
        }
        X5c::JunkLast => {
            b64.push(json!("AAAA"));
            Some(json!(b64))
        }
        X5c::LastNotText(j) => {
            b64.push(j.clone());
            Some(json!(b64))
        }
        X5c::Many(n) => {
            let last = b64[b64.len() - 1].clone();
            b64.extend(std::iter::repeat_n(last, *n as usize));
            Some(json!(b64))
        }
        X5c::Twist(t) => {
            b64[0] = json!(t.apply(b64[0].as_str().unwrap()));
            Some(json!(b64))
        }
    };
    let mut name = name;
    if let (Kind::Hash, Name::Own(i), X5c::CutDer | X5c::LongDer | X5c::BadTag | X5c::JunkFirst) = (p.kind, &p.name, &p.x5c) {
        // the hash of what is presented, which is no certificate
        if let (true, Ok(d)) = (i % 2 == 0, BASE64_STANDARD.decode(x5c.as_ref().and_then(|x| x[0].as_str()).unwrap_or("-"))) {
            name = Some(b64u(sha(d)));
        }
    }
    let client_id = name.map(|n| match p.prefix {
        0 => format!("{}:{n}", p.kind.prefix()),
        1 => n,
        2 => format!("{}:{n}", if p.kind == Kind::Dns { "x509_hash" } else { "x509_san_dns" }),
        _ => format!("{0}:{0}:{n}", p.kind.prefix()),
    });
    let mut header = Map::new();
    if let Some(a) = &p.alg {
        header.insert("alg".into(), a.clone());
    }
    if let Some(x) = x5c {
        header.insert("x5c".into(), x);
    }
    header.insert("typ".into(), json!(TYP));
    add_extra(&mut header, p.extra_header, p.sign.unwrap_or(p.chain[0].key));
    let mut payload = Json::Object(p.claims.clone());
    add_needed(&mut payload, &p.nonce);
    let mut names: Vec<String> = client_id.iter().flat_map(|c| [c.clone(), c.split_once(':').map_or(c.clone(), |c| c.1.to_string())]).collect();
    names.extend(p.chain.iter().flat_map(|c| c.dns_names()).take(8));
    names.push(b64u(sha(&leaf)));
    add_echoes(&mut header, &mut payload, &p.echoes, &names);
    for Echo(slot, what) in p.echoes.iter().filter(|e| e.1 >= 128) {
        let name = ["kid", "x5t#S256", "x5t", "jku", "x5u", "cty"][*slot as usize % 6];
        let value = &names[*what as usize % names.len()];
        if name.starts_with("x5t") && unb64u(value).is_none_or(|v| v.is_empty()) {
            continue;
        }
        header.entry(name).or_insert(json!(value));
    }
    if p.echoes.len() > 1 {
        header.entry("kid").or_insert(json!(names[p.echoes[0].1 as usize % names.len()]));
    }
    if let Some(c) = &client_id {
        payload["client_id"] = json!(c);
    }
    let key = p.sign.unwrap_or(p.chain[0].key);
    let jwt = tampered(key, &Json::Object(header).to_string(), &payload.to_string(), &p.tamper);
    Made {
        leaf,
        jwt,
        client_id,
        payload,
    }
}

/// The conditions of the property except for the signature; None: not decided by the statement
/// (unusual encodings of a certificate).
fn identity(p: &Plan, m: &Made) -> Option<bool> {
    let Some(header) = jws_header(&m.jwt) else {
        return Some(false);
    };
    let Some(Json::String(alg)) = header.get("alg") else {
        return Some(false);
    };
    if !p.wallet_algs.as_ref().is_some_and(|a| a.contains(alg)) {
        return Some(false);
    }
    let Some(Json::Array(x5c)) = header.get("x5c") else {
        return Some(false);
    };
    let Some(Json::String(first)) = x5c.first() else {
        return Some(false);
    };
    let mut odd = false;
    let der = match BASE64_STANDARD.decode(first) {
        Ok(d) => d,
        Err(_) => match BASE64_STANDARD_NO_PAD.decode(first.trim_end_matches('=')) {
            Ok(d) => {
                odd = true;
                d
            }
            Err(_) => return Some(false),
        },
    };
    if Certificate::from_der(&der).is_err() {
        return Some(false);
    }
    let Some(c) = &m.client_id else {
        return Some(false);
    };
    let name = c
        .strip_prefix(&format!("{}:", p.kind.prefix()))
        .unwrap_or(c);
    let ok = match p.kind {
        // a changed header may contain another certificate: then the signature fails, unless the
        // caller's scheme says it does not
        Kind::Dns if der != m.leaf => return if p.scheme.is_some() || matches!(p.x5c, X5c::Twist(_)) { None } else { Some(false) },
        Kind::Dns => p.chain[0].dns_names().iter().any(|d| d == name),
        Kind::Hash => b64u(sha(&der)) == name,
    };
    if ok && odd {
        None
    } else {
        Some(ok)
    }
}

thread_local! {
    static SCHEME: RefCell<(bool, bool, Vec<Seen>)> = const { RefCell::new((false, false, vec![])) };
}

#[derive(Debug, Clone, PartialEq)]
enum Seen {
    Spki(Vec<u8>, String),
    Verify(Vec<u8>, Vec<u8>),
}

/// A signature scheme of the caller's that records what it is given.
struct OtherScheme;

impl Verifier for OtherScheme {
    fn from_spki(spki: SubjectPublicKeyInfoRef<'_>, algorithm: String) -> Result<Self> {
        SCHEME.with(|s| {
            let mut s = s.borrow_mut();
            s.2.push(Seen::Spki(spki.to_der()?, algorithm));
            if s.0 {
                Ok(OtherScheme)
            } else {
                bail!("not handled")
            }
        })
    }
    fn verify(&self, payload: &[u8], signature: &[u8]) -> Result<()> {
        SCHEME.with(|s| {
            let mut s = s.borrow_mut();
            s.2.push(Seen::Verify(payload.to_vec(), signature.to_vec()));
            if s.1 {
                Ok(())
            } else {
                bail!("wrong signature")
            }
        })
    }
}

fn validate<V: Verifier>(p: &Plan, meta: &WalletMetadata, m: &Made) -> Result<Result<()>, Fail> {
    let r = aro(m.payload.clone()).map_err(|e| format!("request object refused: {e:#}"))?;
    let roots: Option<Vec<Certificate>> = p.roots.map(|bits| {
        let ends = [(1, p.chain.first()), (2, p.chain.last())];
        let mut v: Vec<Certificate> = ends.into_iter().filter(|e| bits & e.0 != 0).filter_map(|e| e.1).map(CertPlan::build).collect();
        if bits & 4 != 0 {
            v.extend(p.chain.first().map(|c| CertPlan { key: c.key.wrapping_add(1) % 4, ..c.clone() }.build()));
        }
        v
    });
    Ok(match p.kind {
        Kind::Dns => x509_san::validate::<V>(meta, &r, m.jwt.clone(), roots.as_deref()),
        Kind::Hash => x509_hash::validate::<V>(meta, &r, m.jwt.clone(), roots.as_deref()),
    })
}

/// A request like this one: the verdict on a request does not depend on what was verified before.
fn similar(p: &Plan, k: u8) -> Plan {
    let mut q = p.clone();
    q.before = vec![];
    let genuine = |q: &mut Plan| {
        q.spki = 0;
        q.name = Name::Own(0);
        q.prefix = 0;
        q.x5c = X5c::Good;
        q.alg = Some(json!("ES256"));
        q.wallet_algs = Some(vec!["ES256".into()]);
        q.sign = None;
        q.tamper = Tamper::None;
        q.extra_header = 0;
        q.scheme = None;
    };
    match k {
        0 => genuine(&mut q),
        1 => q.tamper = Tamper::None,
        2 => {
            q.chain[0].key = (q.chain[0].key + 1) % 5;
            genuine(&mut q);
        }
        3 => {}
        4 => {
            genuine(&mut q);
            q.chain.truncate(1);
        }
        5 => q.scheme = Some((true, true)),
        6 => {
            genuine(&mut q);
            q.nonce += "x";
        }
        7 => {
            genuine(&mut q);
            q.chain[0].sans = vec![vec![San::Dns("other.example".into())]];
        }
        // whoever is claimed to ask has asked before
        _ => {
            let claimed = make(p).client_id.map(|c| c.strip_prefix(&format!("{}:", p.kind.prefix())).unwrap_or(&c).to_string()).unwrap_or_default();
            let at = p.chain.iter().position(|c| names(p.kind, c, &c.der()).contains(&claimed));
            q.chain.truncate(1 + k as usize % 2);
            match (at, p.kind) {
                (Some(at), _) => q.chain[0] = p.chain[at].clone(),
                (None, Kind::Dns) if claimed.is_ascii() && !claimed.is_empty() && claimed.len() < 1000 => {
                    q.chain[0].sans = vec![vec![San::Dns(claimed.clone())]];
                    q.chain[0].broken_san = false;
                }
                _ => {}
            }
            genuine(&mut q);
            if let Some(i) = names(p.kind, &q.chain[0], &q.chain[0].der()).iter().take(256).position(|n| *n == claimed) {
                q.name = Name::Own(i as u8);
            }
        }
    }
    q
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    for k in &p.before {
        obs.label("after a similar request");
        one(&similar(p, *k), &mut Obs::default())?;
    }
    one(p, obs)
}

fn one(p: &Plan, obs: &mut Obs) -> Check {
    let m = make(p);
    let mut meta = json!({"client_id_prefixes_supported": [p.kind.prefix()]});
    if let Some(a) = &p.wallet_algs {
        meta["request_object_signing_alg_values_supported"] = json!(a);
    }
    let meta = metadata(meta);
    let Some(ident) = identity(p, &m) else {
        obs.label("unusual certificate encoding");
        return Ok(());
    };
    let header = jws_header(&m.jwt);
    if header.as_ref().is_some_and(unusual_header) && (p.scheme.is_some() || verify_jws(signing_key(p.chain[0].key).verifying_key(), &m.jwt)) {
        obs.label("unusual header");
        return Ok(());
    }
    let alg = header.as_ref().and_then(|h| h.get("alg")).and_then(|a| a.as_str()).unwrap_or_default().to_string();
    let parts: Vec<&str> = m.jwt.split('.').collect();
    if let Some((handles, verifies)) = p.scheme {
        obs.label("scheme of the caller's");
        SCHEME.with(|s| *s.borrow_mut() = (handles, verifies, vec![]));
        let got = validate::<OtherScheme>(p, &meta, &m)?;
        let seen = SCHEME.with(|s| std::mem::take(&mut s.borrow_mut().2));
        let sig = if parts.len() == 3 { unb64u(parts[2]) } else { None };
        let expect = ident && handles && sig.is_some() && verifies;
        ensure_eq!(got.is_ok(), expect, "validation with the caller's signature scheme ({:?})", got.err().map(|e| format!("{e:#}")));
        for s in &seen {
            match s {
                Seen::Spki(spki, a) => {
                    if ident {
                        let want = Certificate::from_der(&m.leaf).unwrap().tbs_certificate.subject_public_key_info.to_der().unwrap();
                        if p.kind == Kind::Dns || matches!(p.tamper, Tamper::None) {
                            ensure_eq!(*spki, want, "key given to the signature scheme");
                        }
                    }
                    ensure_eq!(*a, alg, "algorithm given to the signature scheme");
                }
                Seen::Verify(payload, s) => {
                    ensure!(parts.len() == 3 && *payload == format!("{}.{}", parts[0], parts[1]).into_bytes(), "the signature scheme was given another message");
                    ensure_eq!(Some(s.clone()), sig, "signature given to the signature scheme");
                }
            }
        }
        if expect {
            obs.nontrivial();
            obs.label("accepted");
            ensure!(seen.iter().any(|s| matches!(s, Seen::Verify(..))), "accepted without verifying the signature");
        } else if ident {
            obs.nontrivial();
            obs.label("identity right, signature or key wrong");
        }
        return Ok(());
    }
    let key_ok = p.spki == 0 || p.spki == 3;
    let signed = verify_jws(signing_key(p.chain[0].key).verifying_key(), &m.jwt);
    let expect = ident && key_ok && alg == "ES256" && signed;
    if expect {
        obs.nontrivial();
        obs.label("accepted");
    } else if signed {
        obs.nontrivial();
        obs.label("refused although signed with the leaf's key");
    } else if ident {
        obs.nontrivial();
        obs.label("identity right, signature or key wrong");
    } else {
        obs.label("refused, several reasons");
    }
    let got = validate::<P256Verifier>(p, &meta, &m)?;
    ensure_eq!(got.is_ok(), expect, "validation of the request ({:?})", got.err().map(|e| format!("{e:#}")));
    if p.via_wallet && p.prefix == 0 && m.client_id.is_some() {
        obs.label("through a wallet");
        obs.extra(1);
        let w = LibWallet {
            metadata: meta,
            http: MockHttp::none(),
            resolver: TableResolver::default(),
            trusted_dids: None,
        };
        let url = AuthorizationRequest {
            client_id: m.client_id.clone(),
            request_indirection: RequestIndirection::ByValue { request: m.jwt.clone() },
        }
        .to_url("openid4vp:".parse().unwrap())
        .map_err(|e| e.to_string())?;
        let got = run!(w.validate_request(url));
        let err = got.as_ref().err().map(|e| format!("{e:#}"));
        // the envelope also has to be readable (C05, C06); it always is in requests to accept
        if expect && matches!(p.x5c, X5c::JunkLast | X5c::LastNotText(_)) {
            return Ok(());
        }
        ensure_eq!(got.is_ok(), expect, "validation of the request by a wallet ({err:?})");
    }
    Ok(())
}

pub fn prop(kind: Kind) -> Prop {
    Prop {
        id: if kind == Kind::Dns { "C03" } else { "C04" },
        level: "exploration",
        assumptions: &[
            "certificates with P-256 keys and the bundled P-256 scheme, or any scheme behind the Verifier trait; trust in the chain's root is left to the caller (the library documents it as not implemented)",
            "ECDSA P-256, SHA-256 and the X.509 DER codec of the RustCrypto crates are correct",
        ],
        subs: vec![Box::new(SubCheck {
            name: if kind == Kind::Dns { "san" } else { "hash" },
            rule: "the request is to be accepted, or is refused although its identity is right, or although it is signed with the leaf's key",
            quick: 24_000,
            thorough: 600_000,
            strat: if kind == Kind::Dns { strat_dns } else { strat_hash },
            examples: no_examples,
            test,
        })],
    }
}
