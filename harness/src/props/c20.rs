//! C20: wallet metadata keeps every capability through edits and JSON.
use openid4vp::core::{
    authorization_request::parameters::{ClientIdScheme, ResponseType},
    credential_format::{ClaimFormatDesignation, ClaimFormatPayload},
    metadata::{
        parameters::wallet::{
            AuthorizationEncryptionAlgValuesSupported, AuthorizationEncryptionEncValuesSupported, AuthorizationEndpoint, ClientIdPrefixesSupported, Issuer,
            RequestObjectSigningAlgValuesSupported, ResponseTypesSupported, VpFormatsSupported,
        },
        WalletMetadata,
    },
    object::UntypedObject,
};
use proptest::{option, prelude::*, sample::select};

use crate::gen::{seq, vec};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};
use ssi_jwk::Algorithm;
use url::Url;

use crate::{ensure, ensure_eq, fail, fw::*, gen, kit::*};

const ENDPOINT: &str = "authorization_endpoint";
const FORMATS: &str = "vp_formats_supported";
const ALGS: &str = "request_object_signing_alg_values_supported";
const PREFIXES: &str = "client_id_prefixes_supported";

fn algorithms() -> [(Algorithm, &'static str); 8] {
    [
        (Algorithm::ES256, "ES256"),
        (Algorithm::ES384, "ES384"),
        (Algorithm::EdDSA, "EdDSA"),
        (Algorithm::RS256, "RS256"),
        (Algorithm::PS512, "PS512"),
        (Algorithm::HS256, "HS256"),
        (Algorithm::ES256K, "ES256K"),
        (Algorithm::None, "none"),
    ]
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    AddAlg(u8),
    AddPrefixes(Vec<String>),
    PutFormat(String, Json),
    DropFormat(String),
    Extend(String, bool, String),
    SetIssuer(String),
    DropAlgs,
    Reread(bool),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    endpoint: Option<Json>,
    formats: Option<Json>,
    other: Map<String, Json>,
    via: u8,
    ops: Vec<Op>,
}

fn list() -> BoxedStrategy<Json> {
    prop_oneof![
        6 => vec(prop_oneof![3 => gen::method_name(), 3 => select(vec!["vp_token", "pre-registered", "x509_san_dns", "decentralized_identifier", "redirect_uri", "x509_hash"]).prop_map(String::from)], 0..4).prop_map(|v| json!(v)),
        1 => vec(gen::json_scalar(), 0..3).prop_map(|v| json!(v)),
        1 => gen::json_value(),
    ]
    .boxed()
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    let known = select(vec![
        ALGS,
        PREFIXES,
        ALGS,
        PREFIXES,
        ALGS,
        PREFIXES,
        "client_id_schemes_supported",
        "request_object_signing_alg_values",
        "vp_formats",
        "authorization_endpoint_",
        "response_types_supported",
        "authorization_encryption_alg_values_supported",
        "authorization_encryption_enc_values_supported",
    ]);
    let op = prop_oneof![
        3 => (0u8..8).prop_map(Op::AddAlg),
        3 => vec(prop_oneof![3 => select(vec!["pre-registered", "x509_san_dns", "decentralized_identifier", "redirect_uri", "x509_hash"]).prop_map(String::from), 1 => gen::text()], 0..4).prop_map(Op::AddPrefixes),
        2 => (gen::format_name(), gen::format_payload()).prop_map(|(n, p)| Op::PutFormat(n, p)),
        1 => gen::format_name().prop_map(Op::DropFormat),
        2 => (gen::format_name(), any::<bool>(), gen::method_name()).prop_map(|(n, b, m)| Op::Extend(n, b, m)),
        1 => gen::text().prop_map(Op::SetIssuer),
        1 => Just(Op::DropAlgs),
        1 => any::<bool>().prop_map(Op::Reread),
    ];
    (
        prop_oneof![12 => gen::endpoint().prop_map(|e| Some(json!(e))), 2 => (gen::endpoint(), gen::word()).prop_map(|(e, w)| { let mut u = Url::parse(&e).unwrap(); u.set_fragment(Some(&w)); Some(json!(u.as_str())) }), 2 => (gen::endpoint(), gen::twist()).prop_map(|(e, t)| Some(json!(t.apply(&e)))), 1 => gen::text().prop_map(|e| Some(json!(e))), 1 => option::of(gen::json_value())],
        prop_oneof![12 => gen::format_map().prop_map(|m| Some(Json::Object(m))), 2 => option::of(gen::json_value())],
        (vec((known, list()), 0..4), option::of(gen::json_scalar()), gen::extension_params()),
        prop_oneof![30 => 0u8..5, 1 => Just(5u8)],
        seq(op, 0..7),
    )
        .prop_map(|(endpoint, formats, (known, issuer, ext), via, ops)| {
            let mut other = ext;
            other.extend(known.into_iter().map(|(k, v)| (k.to_string(), v)));
            other.extend(issuer.map(|v| ("issuer".to_string(), v)));
            other.remove(ENDPOINT);
            other.remove(FORMATS);
            Plan { endpoint, formats, other, via, ops }
        })
        .boxed()
}

fn strings(j: Option<&Json>) -> Option<Result<Vec<String>, ()>> {
    let j = j?;
    Some(j.as_array().ok_or(()).and_then(|a| a.iter().map(|x| x.as_str().map(String::from).ok_or(())).collect()))
}

fn payload(j: &Json) -> ClaimFormatPayload {
    let one = |k: &str| {
        let o = j.as_object()?;
        (o.len() == 1).then_some(())?;
        strings(o.get(k))?.ok()
    };
    if let Some(v) = one("alg_values") {
        ClaimFormatPayload::AlgValues(v)
    } else if let Some(v) = one("proof_type_values") {
        ClaimFormatPayload::ProofTypeValues(v)
    } else {
        ClaimFormatPayload::Other(j.clone())
    }
}

/// The formats read as a parameter of metadata whose formats were not changed since it was made.
fn formats_read(md: &WalletMetadata, model: &Map<String, Json>, when: &str) -> Check {
    let got = md.get::<VpFormatsSupported>().map(|r| r.map(|f| Json::try_from(f).unwrap()).map_err(|_| ()));
    ensure_eq!(got, Some(Ok(model[FORMATS].clone())), "formats as a parameter {when}");
    Ok(())
}

/// What the metadata says, through every way of asking.
fn agrees(md: &WalletMetadata, model: &Map<String, Json>, when: &str) -> Check {
    let want = Json::Object(model.clone());
    ensure_eq!(serde_json::to_value(md).map_err(|e| e.to_string())?, want, "JSON {when}");
    let text = serde_json::to_string(md).map_err(|e| e.to_string())?;
    ensure_eq!(serde_json::from_str::<Json>(&text).map_err(|e| e.to_string())?, want, "JSON text {when}");
    ensure_eq!(Json::from(UntypedObject::from(md.clone())), want, "object {when}");
    ensure_eq!(json!(md.authorization_endpoint().0.as_str()), model[ENDPOINT], "endpoint {when}");
    let formats = model[FORMATS].as_object().unwrap();
    ensure_eq!(md.vp_formats_supported().0.len(), formats.len(), "number of formats {when}");
    for (k, v) in formats {
        ensure_eq!(md.vp_formats_supported().0.get(&gen::designation(k)), Some(&payload(v)), "what is declared for {k:?} {when}");
        ensure!(md.vp_formats_supported().is_claim_format_supported(&gen::designation(k)), "{k:?} is not supported {when}");
    }
    ensure_eq!(
        md.get::<AuthorizationEndpoint>().map(|r| r.map(|u| json!(u.0.as_str())).map_err(|_| ())),
        Some(Ok(model[ENDPOINT].clone())),
        "endpoint as a parameter {when}"
    );
    // typed members
    let algs = strings(model.get(ALGS));
    ensure_eq!(
        md.get::<RequestObjectSigningAlgValuesSupported>().map(|r| r.map(|x| x.0).map_err(|_| ())),
        algs,
        "signing algorithms {when}"
    );
    ensure_eq!(
        md.get_or_default::<RequestObjectSigningAlgValuesSupported>().map(|x| x.0).map_err(|_| ()),
        algs.unwrap_or(Ok(vec![])),
        "signing algorithms or default {when}"
    );
    let pre = strings(model.get(PREFIXES));
    let names = |x: ClientIdPrefixesSupported| x.0.into_iter().map(|s| s.0).collect::<Vec<_>>();
    ensure_eq!(md.get::<ClientIdPrefixesSupported>().map(|r| r.map(names).map_err(|_| ())), pre, "prefixes {when}");
    ensure_eq!(
        md.get_or_default::<ClientIdPrefixesSupported>().map(names).map_err(|_| ()),
        pre.unwrap_or(Ok(vec!["pre-registered".into()])),
        "prefixes or default {when}"
    );
    ensure_eq!(
        md.get::<ResponseTypesSupported>().map(|r| r.map(|x| x.0.into_iter().map(|t: ResponseType| String::from(t)).collect::<Vec<_>>()).map_err(|_| ())),
        strings(model.get("response_types_supported")),
        "response types {when}"
    );
    ensure_eq!(
        md.get::<AuthorizationEncryptionAlgValuesSupported>().map(|r| r.map(|x| x.0).map_err(|_| ())),
        strings(model.get("authorization_encryption_alg_values_supported")),
        "encryption algorithms {when}"
    );
    ensure_eq!(
        md.get::<AuthorizationEncryptionEncValuesSupported>().map(|r| r.map(|x| x.0).map_err(|_| ())),
        strings(model.get("authorization_encryption_enc_values_supported")),
        "encryption methods {when}"
    );
    ensure_eq!(
        md.get::<Issuer>().map(|r| r.map(|x| x.0).map_err(|_| ())),
        model.get("issuer").map(|j| j.as_str().map(String::from).ok_or(())),
        "issuer {when}"
    );
    Ok(())
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    // the metadata of a wallet that is only known by its scheme
    let fixed = (p.via == 5).then(|| Plan {
        endpoint: Some(json!("openid4vp:")),
        formats: Some(json!({"jwt_vc_json": {"alg_values": ["ES256"]}})),
        other: Map::from_iter([("response_types_supported".to_string(), json!(["vp_token"])), (ALGS.to_string(), json!(["ES256"]))]),
        ..p.clone()
    });
    let p = fixed.as_ref().unwrap_or(p);
    let url = p.endpoint.as_ref().and_then(Json::as_str).and_then(|s| Url::parse(s).ok());
    let formats = p.formats.as_ref().and_then(Json::as_object);
    let mut given = p.other.clone();
    given.extend(p.endpoint.clone().map(|v| (ENDPOINT.to_string(), v)));
    given.extend(p.formats.clone().map(|v| (FORMATS.to_string(), v)));
    let input = Json::Object(given.clone());
    let made: Result<WalletMetadata, String> = match (p.via, &url, formats) {
        (0, Some(u), Some(f)) => Ok(WalletMetadata::new(
            AuthorizationEndpoint(u.clone()),
            VpFormatsSupported(f.iter().map(|(k, v)| (gen::designation(k), payload(v))).collect()),
            (!p.other.is_empty()).then(|| uo(Json::Object(p.other.clone()))),
        )),
        // required members among the other ones are replaced
        (1, Some(u), Some(f)) => Ok(WalletMetadata::new(
            AuthorizationEndpoint(u.clone()),
            VpFormatsSupported(f.iter().map(|(k, v)| (gen::designation(k), payload(v))).collect()),
            Some(uo({
                let mut o = p.other.clone();
                o.insert(ENDPOINT.into(), json!("https://other.example/"));
                o.insert(FORMATS.into(), json!({"mso_mdoc": {}, "elsewhere": 1}));
                Json::Object(o)
            })),
        )),
        (2, ..) => serde_json::from_str(&input.to_string()).map_err(|e| e.to_string()),
        (5, ..) => Ok(WalletMetadata::openid4vp_scheme_static()),
        (3, ..) => WalletMetadata::try_from(uo(input.clone())).map_err(|e| format!("{e:#}")),
        _ => serde_json::from_value(input.clone()).map_err(|e| e.to_string()),
    };
    let (Some(url), Some(_)) = (url, formats) else {
        ensure!(made.is_err(), "accepted {input}");
        obs.label("refused");
        obs.nontrivial();
        return Ok(());
    };
    let mut md = match made {
        Ok(m) => m,
        Err(e) => fail!("refused {input}: {e}"),
    };
    let mut model = given;
    model.insert(ENDPOINT.into(), json!(url.as_str()));
    agrees(&md, &model, "at first")?;
    formats_read(&md, &model, "at first")?;
    if !p.other.is_empty() || !p.ops.is_empty() {
        obs.nontrivial();
    }
    for (i, op) in p.ops.iter().enumerate() {
        let when = format!("after step {i}, {op:?}");
        // a list extended by `more`, or `None` when what is there is no list
        let mut append = |key: &str, default: &[&str], more: Vec<String>| -> bool {
            match strings(model.get(key)) {
                Some(Err(())) => false,
                l => {
                    let mut v = l.map(Result::unwrap).unwrap_or(default.iter().map(|s| s.to_string()).collect());
                    v.extend(more);
                    model.insert(key.into(), json!(v));
                    true
                }
            }
        };
        match op {
            Op::AddAlg(a) => {
                let (alg, name) = algorithms()[*a as usize];
                let ok = append(ALGS, &[], vec![name.into()]);
                ensure_eq!(md.add_request_object_signing_alg_values_supported(alg).is_ok(), ok, "success {when}");
                obs.label(if ok { "algorithm added" } else { "malformed list kept" });
            }
            Op::AddPrefixes(ps) => {
                let ok = append(PREFIXES, &["pre-registered"], ps.clone());
                let ps: Vec<ClientIdScheme> = ps.iter().map(|s| ClientIdScheme(s.clone())).collect();
                ensure_eq!(md.add_client_id_prefixes_supported(&ps).is_ok(), ok, "success {when}");
                obs.label(if ok { "prefixes added" } else { "malformed list kept" });
            }
            Op::PutFormat(n, j) => {
                md.vp_formats_supported_mut().0.insert(gen::designation(n), payload(j));
                model[FORMATS].as_object_mut().unwrap().insert(n.clone(), j.clone());
                obs.label("formats changed");
            }
            Op::DropFormat(n) => {
                md.vp_formats_supported_mut().0.remove(&gen::designation(n));
                model[FORMATS].as_object_mut().unwrap().remove(n);
            }
            Op::Extend(n, b, m) => {
                if let Some(x) = md.vp_formats_supported_mut().0.get_mut(&ClaimFormatDesignation::from(n.as_str())) {
                    if *b {
                        x.add_alg(m.clone())
                    } else {
                        x.add_proof_type(m.clone())
                    }
                }
                let key = if *b { "alg_values" } else { "proof_type_values" };
                if let Some(j) = model[FORMATS].as_object_mut().unwrap().get_mut(n) {
                    if matches!((payload(j), *b), (ClaimFormatPayload::AlgValues(_), true) | (ClaimFormatPayload::ProofTypeValues(_), false)) {
                        j[key].as_array_mut().unwrap().push(json!(m));
                        obs.label("formats changed");
                    }
                }
            }
            Op::SetIssuer(s) => {
                let old = md.insert(Issuer(s.clone())).map(|r| r.map(|x| x.0).map_err(|_| ()));
                let was = model.insert("issuer".into(), json!(s)).map(|j| j.as_str().map(String::from).ok_or(()));
                ensure_eq!(old, was, "previous issuer {when}");
            }
            Op::DropAlgs => {
                md.remove::<RequestObjectSigningAlgValuesSupported>();
                model.remove(ALGS);
            }
            Op::Reread(text) => {
                md = if *text {
                    serde_json::from_str(&serde_json::to_string(&md).map_err(|e| e.to_string())?)
                } else {
                    serde_json::from_value(serde_json::to_value(&md).map_err(|e| e.to_string())?)
                }
                .map_err(|e| format!("reading back: {e}"))?;
                formats_read(&md, &model, &when)?;
            }
        }
        agrees(&md, &model, &when)?;
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        level: "exploration",
        assumptions: &["the required members are changed only through vp_formats_supported_mut, not through the underlying parameter object (which keeps separate copies until the metadata is written)"],
        subs: vec![Box::new(SubCheck {
            name: "metadata",
            rule: "a metadata object (endpoint, formats, known and unknown members, some ill-formed), a way of making it and a sequence of edits; non-trivial: refused input, further members or edits",
            quick: 16_000,
            thorough: 600_000,
            strat,
            examples: no_examples,
            test,
        })],
    }
}
