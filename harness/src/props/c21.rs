//! C21: typed protocol parameters read and write faithfully.
use openid4vp::core::{
    authorization_request::parameters::*,
    credential_format::ClaimFormatDesignation,
    dcql_query::{DcqlQuery, TrustedAuthorityType},
    metadata::parameters::{verifier::*, wallet::*},
    object::{ParsingErrorContext, TypedParameter, UntypedObject},
    response::parameters::{IdToken, VpToken},
};
use proptest::{prelude::*, sample::select};

use crate::gen::{seq, vec};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};
use std::{borrow::Cow, str::FromStr};
use url::Url;

use crate::{ensure, ensure_eq, fail, fw::*, gen, kit::*};

type Read = Option<Result<Json, ()>>;

/// How a value read under a name is to come out: as JSON, not at all, or not judged.
#[derive(Debug, Clone, PartialEq)]
enum Reading {
    Is(Json),
    Error,
    Open,
}
use Reading::*;

struct Kind {
    name: &'static str,
    key: &'static str,
    read: fn(&Json) -> Reading,
    default: Option<Json>,
    lib_key: &'static str,
    get: fn(&UntypedObject) -> Read,
    required: fn(&UntypedObject) -> Result<Json, ()>,
    remove: fn(&mut UntypedObject) -> Read,
    /// `None`: no such parameter can be made.
    insert: fn(&mut UntypedObject, Json) -> Option<Read>,
    or_default: Option<fn(&UntypedObject) -> Result<Json, ()>>,
    sample: fn() -> BoxedStrategy<Json>,
}

fn out<T: TypedParameter>(t: T) -> Json {
    t.try_into().ok().expect("a parameter is JSON")
}

fn outs<T: TypedParameter>(r: Option<anyhow::Result<T>>) -> Read {
    r.map(|r| r.map(out).map_err(|_| ()))
}

fn text(j: &Json) -> Reading {
    if j.is_string() {
        Is(j.clone())
    } else {
        Error
    }
}

fn texts(j: &Json) -> Reading {
    match j.as_array() {
        Some(a) if a.iter().all(Json::is_string) => Is(j.clone()),
        _ => Error,
    }
}

fn array(j: &Json) -> Reading {
    if j.is_array() {
        Is(j.clone())
    } else {
        Error
    }
}

fn object(j: &Json) -> Reading {
    if j.is_object() {
        Is(j.clone())
    } else {
        Error
    }
}

fn anything(j: &Json) -> Reading {
    Is(j.clone())
}

fn url(j: &Json) -> Reading {
    match j.as_str().map(Url::parse) {
        Some(Ok(u)) => Is(json!(u.as_str())),
        _ => Error,
    }
}

fn method(j: &Json) -> Reading {
    match j.as_str() {
        Some("get" | "post") => Is(j.clone()),
        _ => Error,
    }
}

fn jwks(j: &Json) -> Reading {
    match j {
        Json::Array(_) => Open,
        Json::Object(o) => match o.get("keys").and_then(Json::as_array) {
            Some(k) if k.iter().all(Json::is_object) => Is(json!({ "keys": k })),
            _ => Error,
        },
        _ => Error,
    }
}

fn vp_token(j: &Json) -> Reading {
    let good = |v: &Json| v.as_array().is_some_and(|a| a.iter().all(|x| x.is_string() || x.is_object()));
    match j.as_object() {
        Some(o) if o.values().all(good) => Is(j.clone()),
        _ => Error,
    }
}

fn dcql(j: &Json) -> Reading {
    match j {
        Json::Array(_) => Open,
        Json::Object(o) => match o.get("credentials") {
            None => Error,
            Some(Json::Array(a)) if a.is_empty() => Error,
            // generated as a query
            Some(Json::Array(a)) if a.iter().all(|c| c.get("id").is_some() && c.get("meta").is_some()) => Is(j.clone()),
            _ => Open,
        },
        _ => Error,
    }
}

fn s_text() -> BoxedStrategy<Json> {
    gen::text().prop_map(Json::from).boxed()
}

fn s_name() -> BoxedStrategy<Json> {
    name().prop_map(Json::from).boxed()
}

fn s_texts() -> BoxedStrategy<Json> {
    vec(name(), 0..4).prop_map(|v| json!(v)).boxed()
}

fn s_url() -> BoxedStrategy<Json> {
    prop_oneof![4 => gen::http_url(), 2 => gen::endpoint(), 1 => select(vec!["HTTPS://EXAMPLE.com", "https://a.b:443/x/../y", "x:", "mailto:a@b"]).prop_map(String::from)].prop_map(Json::from).boxed()
}

fn s_object() -> BoxedStrategy<Json> {
    gen::json_object().prop_map(Json::Object).boxed()
}

fn s_formats() -> BoxedStrategy<Json> {
    gen::format_map().prop_map(Json::Object).boxed()
}

fn s_array() -> BoxedStrategy<Json> {
    vec(gen::json_value(), 0..4).prop_map(|v| json!(v)).boxed()
}

fn s_jwks() -> BoxedStrategy<Json> {
    (vec(prop_oneof![6 => gen::json_object().prop_map(Json::Object), 1 => gen::json_scalar()], 0..3), gen::extension_params())
        .prop_map(|(k, mut o)| {
            o.insert("keys".into(), json!(k));
            Json::Object(o)
        })
        .boxed()
}

fn s_vp() -> BoxedStrategy<Json> {
    vec((gen::text(), vec(prop_oneof![4 => s_text(), 4 => s_object(), 1 => gen::json_value()], 0..3)), 0..3)
        .prop_map(|v| Json::Object(v.into_iter().map(|(k, x)| (k, json!(x))).collect()))
        .boxed()
}

fn s_dcql() -> BoxedStrategy<Json> {
    gen::small_dcql().prop_map(|p| p.json()).boxed()
}

/// Names the protocol knows, and others.
fn name() -> BoxedStrategy<String> {
    prop_oneof![
        6 => select(NAMES.to_vec()).prop_map(String::from),
        2 => (select(NAMES.to_vec()), 0u8..6).prop_map(|(n, how)| match how {
            0 => n.to_uppercase(),
            1 => format!("{n} "),
            2 => format!(" {n}"),
            3 => n.replace(['_', '.', '+', ' '], "-"),
            4 => n.chars().take(n.chars().count().saturating_sub(1)).collect(),
            _ => format!("{n}.jwt"),
        }),
        2 => gen::near(&NAMES),
        2 => (select(NAMES.to_vec()), gen::twist()).prop_map(|(n, t)| t.apply(n)),
        1 => select(vec!["jwt_vp_json", "jwt_vp", "ldp_vp", "vc+sd-jwt", "jwt_vc", "ldp", "dc_api.jwe", "form_post", "direct_post.jwe", "w3c_dc_api", "w3c_dc_api.jwt", "openid_fed", "authority_key_identifier", "etsi", "PUT", "GET", "POST", "put", "head", "delete", "vp_token  id_token", "vp_token code", "vp_token+id_token"]).prop_map(String::from),
        1 => gen::text(),
    ]
    .boxed()
}

const NAMES: [&str; 30] = [
    "direct_post",
    "direct_post.jwt",
    "dc_api",
    "dc_api.jwt",
    "fragment",
    "query",
    "vp_token",
    "vp_token id_token",
    "id_token vp_token",
    "id_token",
    "code",
    "get",
    "post",
    "jwt_vc_json",
    "ldp_vc",
    "mso_mdoc",
    "dc+sd-jwt",
    "vc+sd-jwt",
    "aki",
    "etsi_tl",
    "openid_federation",
    "redirect_uri",
    "x509_san_dns",
    "x509_hash",
    "decentralized_identifier",
    "pre-registered",
    "verifier_attestation",
    "origin",
    "Other",
    "",
];

macro_rules! kind {
    ($t:ty, $key:literal, $read:expr, $sample:expr) => {
        kind!(@ $t, $key, $read, $sample, None, None)
    };
    ($t:ty, $key:literal, $read:expr, $sample:expr, $default:expr) => {
        kind!(@ $t, $key, $read, $sample, Some($default), Some(|o| o.get_or_default::<$t>().map(out).map_err(|_| ())))
    };
    (@ $t:ty, $key:literal, $read:expr, $sample:expr, $default:expr, $or:expr) => {
        Kind {
            name: stringify!($t),
            key: $key,
            read: $read,
            default: $default,
            lib_key: <$t as TypedParameter>::KEY,
            get: |o| outs(o.get::<$t>()),
            required: |o| o.get::<$t>().parsing_error().map(out).map_err(|_| ()),
            remove: |o| outs(o.remove::<$t>()),
            insert: |o, j| <$t>::try_from(j).ok().map(|t| outs(o.insert(t))),
            or_default: $or,
            sample: $sample,
        }
    };
}

pub fn probe(o: &UntypedObject) {
    for k in kinds() {
        let _ = (k.get)(o);
        let _ = (k.required)(o);
        let _ = k.or_default.map(|f| f(o));
        let _ = (k.remove)(&mut o.clone());
        let made = Json::from(o.clone()).get(k.key).cloned();
        let _ = made.map(|j| (k.insert)(&mut o.clone(), j));
    }
}

fn kinds() -> Vec<Kind> {
    vec![
        kind!(ClientId, "client_id", text, s_text),
        kind!(ClientMetadata, "client_metadata", object, s_object),
        kind!(Nonce, "nonce", text, s_text),
        kind!(Audience, "aud", text, s_text),
        kind!(RedirectUri, "redirect_uri", url, s_url),
        kind!(ResponseUri, "response_uri", url, s_url),
        kind!(ResponseMode, "response_mode", text, s_name, json!("direct_post")),
        kind!(ResponseType, "response_type", text, s_name),
        kind!(State, "state", text, s_text),
        kind!(ExpectedOrigins, "expected_origins", texts, s_texts),
        kind!(TransactionData, "transaction_data", texts, s_texts),
        kind!(VerifierInfo, "verifier_info", array, s_array),
        kind!(RequestUriMethod, "request_uri_method", method, s_name, json!("get")),
        kind!(VpFormats, "vp_formats_supported", object, s_formats),
        kind!(JWKs, "jwks", jwks, s_jwks),
        kind!(EncryptedResponseEncValuesSupported, "encrypted_response_enc_values_supported", texts, s_texts, json!(["A128GCM"])),
        kind!(Issuer, "issuer", text, s_text),
        kind!(AuthorizationEndpoint, "authorization_endpoint", url, s_url),
        kind!(ResponseTypesSupported, "response_types_supported", texts, s_texts),
        kind!(ClientIdPrefixesSupported, "client_id_prefixes_supported", texts, s_texts, json!(["pre-registered"])),
        kind!(RequestObjectSigningAlgValuesSupported, "request_object_signing_alg_values_supported", texts, s_texts, json!([])),
        kind!(VpFormatsSupported, "vp_formats_supported", object, s_formats, json!({})),
        kind!(AuthorizationEncryptionAlgValuesSupported, "authorization_encryption_alg_values_supported", texts, s_texts),
        kind!(AuthorizationEncryptionEncValuesSupported, "authorization_encryption_enc_values_supported", texts, s_texts),
        kind!(IdToken, "id_token", text, s_text),
        kind!(VpToken, "vp_token", vp_token, s_vp, json!({})),
        kind!(DcqlQuery, "dcql_query", dcql, s_dcql),
        // an application's own parameters
        kind!(super::rig::Raw<16>, "x_one", anything, gen::json_value),
        kind!(super::rig::Raw<17>, "x two", anything, gen::json_value),
    ]
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Insert(u8, Json),
    Remove(u8),
    Get(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    start: Map<String, Json>,
    ops: Vec<Op>,
}

fn value() -> BoxedStrategy<(u8, Json)> {
    let each: Vec<_> = kinds().iter().enumerate().map(|(i, k)| (k.sample)().prop_map(move |j| (i as u8, j)).boxed()).collect();
    let n = each.len() as u8;
    prop_oneof![
        6 => proptest::strategy::Union::new(each),
        2 => (0..n, gen::json_value()),
    ]
    .boxed()
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    let n = kinds().len() as u8;
    let op = prop_oneof![5 => value().prop_map(|(i, j)| Op::Insert(i, j)), 2 => (0..n).prop_map(Op::Remove), 1 => (0..n).prop_map(Op::Get)];
    // values under names that are nearly those of parameters
    let near = prop_oneof![2 => Just(vec![]), 1 => vec((value(), gen::twist()), 1..5)];
    (vec(value(), 0..8), gen::extension_params(), seq(op, 1..8), near)
        .prop_map(|(v, ext, ops, near)| {
            let k = kinds();
            let mut start = ext;
            start.extend(near.into_iter().map(|((i, j), t)| (t.apply(k[i as usize].key), j)).filter(|(n, _)| k.iter().all(|k| k.key != n)));
            start.extend(v.into_iter().map(|(i, j)| (k[i as usize].key.to_string(), j)));
            Plan { start, ops }
        })
        .boxed()
}

fn same(got: &Read, k: &Kind, stored: Option<&Json>, what: &str) -> Check {
    let want = match stored.map(|j| (k.read)(j)) {
        None => None,
        Some(Is(j)) => Some(Ok(j)),
        Some(Error) => Some(Err(())),
        Some(Open) => return Ok(()),
    };
    ensure_eq!(*got, want, "{what} {} where {:?} is stored", k.name, stored);
    Ok(())
}

fn all_agree(o: &UntypedObject, model: &Map<String, Json>, ks: &[Kind]) -> Check {
    ensure_eq!(Json::from(o.clone()), Json::Object(model.clone()), "the object");
    ensure_eq!(serde_json::to_value(o).map_err(|e| e.to_string())?, Json::Object(model.clone()), "the object's JSON");
    for k in ks {
        let at = model.get(k.key);
        let got = (k.get)(o);
        same(&got, k, at, "reading")?;
        let need = (k.required)(o);
        ensure_eq!(need, got.clone().unwrap_or(Err(())), "requiring {}", k.name);
        if let (Some(f), Some(d)) = (k.or_default, &k.default) {
            ensure_eq!(f(o), got.unwrap_or(Ok(d.clone())), "reading {} or its default", k.name);
        }
    }
    Ok(())
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let ks = kinds();
    for k in &ks {
        ensure_eq!(k.lib_key, k.key, "name of {}", k.name);
    }
    let mut o = uo(Json::Object(p.start.clone()));
    let mut model = p.start.clone();
    all_agree(&o, &model, &ks)?;
    if p.start.len() + p.ops.len() > 1 {
        obs.nontrivial();
    }
    for op in &p.ops {
        match op {
            Op::Insert(i, j) => {
                let k = &ks[*i as usize];
                let made = (k.insert)(&mut o, j.clone());
                match ((k.read)(j), made) {
                    (Is(c), Some(old)) => {
                        same(&old, k, model.get(k.key), "previous value on inserting")?;
                        model.insert(k.key.into(), c);
                        obs.label("inserted");
                    }
                    (Error, None) => obs.label("not a value"),
                    (Open, _) => {
                        // whatever it became
                        match Json::from(o.clone()).get(k.key) {
                            Some(j) => model.insert(k.key.into(), j.clone()),
                            None => model.remove(k.key),
                        };
                    }
                    (r, made) => fail!("{} from {j}: {:?}, expected {r:?}", k.name, made.is_some()),
                }
            }
            Op::Remove(i) => {
                let k = &ks[*i as usize];
                let old = (k.remove)(&mut o);
                same(&old, k, model.get(k.key), "removing")?;
                if model.remove(k.key).is_some() {
                    obs.label("removed");
                }
            }
            Op::Get(i) => {
                let k = &ks[*i as usize];
                same(&(k.get)(&o), k, model.get(k.key), "reading")?;
            }
        }
        all_agree(&o, &model, &ks)?;
    }
    Ok(())
}

// names
fn test_name(s: &String, obs: &mut Obs) -> Check {
    obs.nontrivial();
    let s = s.as_str();
    obs.label(if NAMES.contains(&s) { "protocol name" } else { "other name" });
    let j = json!(s);

    let mode = ResponseMode::from(s.to_string());
    let (want, jarm) = match s {
        "direct_post" => (ResponseMode::DirectPost, Some(false)),
        "direct_post.jwt" => (ResponseMode::DirectPostJwt, Some(true)),
        "dc_api" => (ResponseMode::DcApi, Some(false)),
        "dc_api.jwt" => (ResponseMode::DcApiJwt, Some(true)),
        _ => (ResponseMode::Unsupported(s.into()), None),
    };
    ensure_eq!(mode, want, "response mode {s:?}");
    ensure_eq!(mode.to_string(), s, "response mode as text");
    ensure_eq!(String::from(mode.clone()), s, "response mode as string");
    ensure_eq!(Json::from(mode.clone()), j, "response mode as JSON");
    ensure_eq!(serde_json::to_value(&mode).map_err(|e| e.to_string())?, j, "response mode serialized");
    ensure_eq!(serde_json::from_value::<ResponseMode>(j.clone()).map_err(|e| e.to_string())?, want, "response mode from JSON");
    ensure_eq!(mode.is_jarm().ok(), jarm, "whether response mode {s:?} is encrypted");

    let ty = ResponseType::from(s.to_string());
    let want = match s {
        "vp_token" => ResponseType::VpToken,
        "vp_token id_token" => ResponseType::VpTokenIdToken,
        _ => ResponseType::Unsupported(s.into()),
    };
    ensure_eq!(ty, want, "response type {s:?}");
    ensure_eq!(String::from(ty.clone()), s, "response type as string");
    ensure_eq!(Json::from(ty.clone()), j, "response type as JSON");
    ensure_eq!(serde_json::to_value(&ty).map_err(|e| e.to_string())?, j, "response type serialized");
    ensure_eq!(serde_json::from_value::<ResponseType>(j.clone()).map_err(|e| e.to_string())?, want, "response type from JSON");

    let want = match s {
        "get" => Some(RequestUriMethod::Get),
        "post" => Some(RequestUriMethod::Post),
        _ => None,
    };
    let m = RequestUriMethod::try_from(j.clone()).ok();
    ensure_eq!(m, want, "request URI method {s:?}");
    if let Some(m) = m {
        ensure_eq!(Json::from(m), j, "request URI method as JSON");
    }

    let want = match s {
        "jwt_vc_json" => ClaimFormatDesignation::JwtVcJson,
        "ldp_vc" => ClaimFormatDesignation::LdpVc,
        "mso_mdoc" => ClaimFormatDesignation::MsoMDoc,
        "dc+sd-jwt" => ClaimFormatDesignation::DcSdJwt,
        _ => ClaimFormatDesignation::Other(s.into()),
    };
    for d in [
        ClaimFormatDesignation::from(s),
        ClaimFormatDesignation::from(s.to_string()),
        ClaimFormatDesignation::from_name(Cow::Borrowed(s)),
        ClaimFormatDesignation::from_str(s).unwrap(),
        serde_json::from_value(j.clone()).map_err(|e| e.to_string())?,
        serde_json::from_str(&j.to_string()).map_err(|e| e.to_string())?,
    ] {
        ensure_eq!(d, want, "credential format {s:?}");
        ensure_eq!(d.to_string(), s, "credential format as text");
        ensure_eq!(String::from(d.clone()), s, "credential format as string");
        ensure_eq!(serde_json::to_value(&d).map_err(|e| e.to_string())?, j, "credential format serialized");
    }

    let want = match s {
        "aki" => TrustedAuthorityType::Aki,
        "etsi_tl" => TrustedAuthorityType::EtsiTl,
        "openid_federation" => TrustedAuthorityType::OpenidFederation,
        _ => TrustedAuthorityType::Other(s.into()),
    };
    let a: TrustedAuthorityType = serde_json::from_value(j.clone()).map_err(|e| format!("authority type {s:?}: {e}"))?;
    ensure_eq!(a, want, "authority type {s:?}");
    ensure_eq!(serde_json::to_value(&a).map_err(|e| e.to_string())?, j, "authority type serialized");

    let scheme = ClientIdScheme::try_from(j.clone()).map_err(|e| format!("{e:#}"))?;
    ensure_eq!(&*scheme, s, "client identifier prefix");
    ensure_eq!(Json::from(scheme), j, "client identifier prefix as JSON");
    let nonce = Nonce::from(s);
    ensure_eq!((nonce.as_str(), nonce.to_string(), Json::from(nonce.clone())), (s, s.to_string(), j.clone()), "nonce");
    for n in [Nonce::from(s.to_string()), Nonce::try_from(j.clone()).map_err(|e| format!("{e:#}"))?, serde_json::from_value(j.clone()).map_err(|e| e.to_string())?] {
        ensure_eq!(n.as_str(), s, "nonce");
        ensure_eq!(serde_json::to_value(&n).map_err(|e| e.to_string())?, j, "nonce serialized");
    }
    let st: State = serde_json::from_value(j.clone()).map_err(|e| e.to_string())?;
    ensure_eq!(serde_json::to_value(&st).map_err(|e| e.to_string())?, j, "state serialized");
    for (c, n) in [
        (ClientIdScheme::DECENTRALIZED_IDENTIFIER, "decentralized_identifier"),
        (ClientIdScheme::OPENID_FEDERATION, "openid_federation"),
        (ClientIdScheme::PREREGISTERED, "pre-registered"),
        (ClientIdScheme::REDIRECT_URI, "redirect_uri"),
        (ClientIdScheme::VERIFIER_ATTESTATION, "verifier_attestation"),
        (ClientIdScheme::X509_SAN_DNS, "x509_san_dns"),
        (ClientIdScheme::X509_HASH, "x509_hash"),
        (ClientIdScheme::ORIGIN, "origin"),
    ] {
        ensure_eq!(c, n, "prefix constant");
    }
    Ok(())
}

// values that are no names
fn test_ill(j: &Json, obs: &mut Obs) -> Check {
    if j.is_string() {
        return Ok(());
    }
    obs.nontrivial();
    ensure!(ResponseMode::try_from(j.clone()).is_err() && serde_json::from_value::<ResponseMode>(j.clone()).is_err(), "response mode from {j}");
    ensure!(ResponseType::try_from(j.clone()).is_err() && serde_json::from_value::<ResponseType>(j.clone()).is_err(), "response type from {j}");
    ensure!(RequestUriMethod::try_from(j.clone()).is_err(), "request URI method from {j}");
    ensure!(serde_json::from_value::<ClaimFormatDesignation>(j.clone()).is_err(), "credential format from {j}");
    ensure!(ClientIdScheme::try_from(j.clone()).is_err(), "client identifier prefix from {j}");
    ensure!(serde_json::from_value::<TrustedAuthorityType>(j.clone()).is_err(), "authority type from {j}");
    Ok(())
}

// the verifier's metadata
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Meta {
    given: Option<Json>,
}

fn meta(_: Tier) -> BoxedStrategy<Meta> {
    let member = |s: BoxedStrategy<Json>| proptest::option::weighted(0.7, prop_oneof![5 => s, 1 => gen::json_value()]);
    let good = (member(s_jwks()), member(s_formats()), member(s_texts()), gen::extension_params()).prop_map(|(k, f, e, mut o)| {
        o.extend(k.map(|v| ("jwks".to_string(), v)));
        o.extend(f.map(|v| ("vp_formats_supported".to_string(), v)));
        o.extend(e.map(|v| ("encrypted_response_enc_values_supported".to_string(), v)));
        Json::Object(o)
    });
    prop_oneof![8 => good.prop_map(Some), 1 => Just(None), 1 => gen::json_value().prop_map(Some)].prop_map(|given| Meta { given }).boxed()
}

fn test_meta(p: &Meta, obs: &mut Obs) -> Check {
    let mut j = json!({"client_id": "c", "response_type": "vp_token", "nonce": "n", "response_mode": "dc_api"});
    if let Some(m) = &p.given {
        j["client_metadata"] = m.clone();
    }
    let r = aro(j).map_err(|e| format!("{e:#}"))?;
    let got = ClientMetadata::resolve(&r);
    let want = p.given.clone().unwrap_or(json!({}));
    if !want.is_object() {
        ensure!(got.is_err(), "client metadata from {want}");
        obs.label("refused");
        return Ok(());
    }
    obs.nontrivial();
    let m = got.map_err(|e| format!("{e:#}"))?;
    ensure_eq!(Json::from(m.clone()), want, "client metadata");
    let read = |r: Reading| match r {
        Is(j) => Some(Ok(j)),
        Error => Some(Err(())),
        Open => None,
    };
    if let Some(w) = want.get("jwks").map_or(Some(None), |j| read(jwks(j)).map(Some)) {
        ensure_eq!(m.jwks().map(|r| r.map(Json::from).map_err(|_| ())), w, "key set of {want}");
    }
    let w = want.get("vp_formats_supported").map_or(Some(Err(())), |j| read(object(j))).unwrap();
    ensure_eq!(m.vp_formats().map(|f| Json::try_from(f).unwrap()).map_err(|_| ()), w, "formats of {want}");
    ensure_eq!(r.vp_formats().map(|f| Json::try_from(f).unwrap()).map_err(|_| ()), w, "formats the request with {want} asks for");
    ensure_eq!(r.client_metadata().map(Json::from).map_err(|_| ()), p.given.clone().ok_or(()), "client metadata of the request");
    let w = want.get("encrypted_response_enc_values_supported").map_or(Some(Ok(json!(["A128GCM"]))), |j| read(texts(j))).unwrap();
    ensure_eq!(m.encrypted_response_enc_values_supported().map(Json::from).map_err(|_| ()), w, "encryption methods of {want}");
    obs.label("read");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        level: "exploration",
        assumptions: &["a key set or query given as a JSON array instead of an object is not judged"],
        subs: vec![
            Box::new(SubCheck {
                name: "object",
                rule: "a parameter object and a sequence of insertions, removals and readings of all 27 parameters and two of the application, every parameter being read after each; non-trivial: more than one member or step",
                quick: 6_000,
                thorough: 400_000,
                strat,
                examples: no_examples,
                test,
            }),
            Box::new(SubCheck {
                name: "names",
                rule: "a protocol name, a variation of one, or other text, taken as every kind of named value; non-trivial: all",
                quick: 24_000,
                thorough: 800_000,
                strat: |_| name(),
                examples: || NAMES.iter().map(|s| s.to_string()).collect(),
                test: test_name,
            }),
            Box::new(SubCheck {
                name: "ill-typed",
                rule: "JSON as a named value; non-trivial: not a string",
                quick: 12_000,
                thorough: 300_000,
                strat: |_| gen::json_value(),
                examples: no_examples,
                test: test_ill,
            }),
            Box::new(SubCheck {
                name: "client metadata",
                rule: "a request with or without client metadata, read through its accessors; non-trivial: the metadata is an object",
                quick: 12_000,
                thorough: 400_000,
                strat: meta,
                examples: no_examples,
                test: test_meta,
            }),
        ],
    }
}
