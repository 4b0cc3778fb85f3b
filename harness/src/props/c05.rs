//! C05: a request never changes identity or type between its envelope and its object.
use openid4vp::{
    core::authorization_request::{AuthorizationRequest, RequestIndirection},
    wallet::Wallet as _,
};
use proptest::{option, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};

use crate::{ensure, ensure_eq, fw::*, gen, kit::*, run};

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Mode {
    Value,
    Reference,
    Direct,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Shape {
    Good,
    NoDots,
    OneDot,
    ExtraPart,
    HeaderNotBase64,
    HeaderPadded,
    HeaderNotJson,
    HeaderNotObject,
    PayloadNotObject,
    PayloadNotBase64,
    Empty,
    PlainJson,
}

/// How the inner identifier differs from the outer one.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum Inner {
    Same,
    Absent,
    Other(String),
    Near(u8),
    Twist(gen::Twist),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    outer: Option<String>,
    inner: Inner,
    mode: Mode,
    shape: Shape,
    typ: Option<Json>,
    via_url: bool,
    nonce: String,
    claims: Map<String, Json>,
    /// Further members of the header.
    header: Map<String, Json>,
    key: u8,
    /// Names repeated where they do not count.
    echoes: Vec<super::tamper::Echo>,
    /// The request is fetched from the address in the client identifier.
    own_address: bool,
    /// Headers of the answer to a request by reference.
    answer_headers: Vec<(String, String)>,
}

fn client_id() -> BoxedStrategy<String> {
    prop_oneof![
        3 => (select(vec!["x509_san_dns", "x509_hash", "decentralized_identifier", "verifier_attestation", "openid_federation", "custom"]), gen::text()).prop_map(|(p, t)| format!("{p}:{t}")),
        3 => gen::http_url().prop_map(|u| format!("redirect_uri:{u}")),
        2 => gen::text().prop_map(|t| t.replace(':', "")),
        1 => gen::http_url(),
        1 => (gen::word(), gen::phrase()).prop_map(|(a, b)| format!("{a}{b}")),
        1 => (gen::word(), gen::http_url()).prop_map(|(a, b)| format!("{a}redirect_uri:{b}")),
        1 => select(vec!["redirect_uri", "redirect_urix:a", "Redirect_uri:a", "redirect_ur:i", "x:redirect_uri:a", " redirect_uri:a"]).prop_map(String::from),
    ]
    .boxed()
}

fn near(s: &str, k: u8) -> String {
    match k {
        0 => s.to_uppercase(),
        1 => format!("{s} "),
        2 => format!("{s}/"),
        3 => s.split_once(':').map(|x| x.1.to_string()).unwrap_or(format!("x:{s}")),
        4 => format!("redirect_uri:{s}"),
        5 => {
            let mut t = s.to_string();
            t.pop();
            t
        }
        6 => s.replacen(':', "%3A", 1),
        7 => String::new(),
        _ => format!("x{s}"),
    }
}

/// Members of the header that say something else.
fn header() -> BoxedStrategy<Map<String, Json>> {
    let member = prop_oneof![
        3 => (select(vec!["cty", "Typ", "TYP", "type", "typ ", "ty", "iss", "jku", "kid", "x_typ"]).prop_map(String::from), prop_oneof![3 => Just(json!(TYP)), 1 => gen::json_value()]),
        1 => Just(("x5c".to_string(), json!(["MIIB"]))),
        1 => (gen::extension_name(), prop_oneof![1 => Just(json!(TYP)), 1 => gen::json_value()]),
    ];
    prop_oneof![2 => Just(Map::new()), 1 => gen::vec(member, 1..3).prop_map(|v| v.into_iter().filter(|(k, v)| header_member(k, v)).collect())].boxed()
}

/// Whether a header with this member is still one: those that are defined have a type.
pub fn header_member(name: &str, value: &Json) -> bool {
    match name {
        "alg" | "typ" | "jwk" | "crit" | "b64" => false,
        "x5c" => value.as_array().is_some_and(|a| !a.is_empty() && a.iter().all(|x| x.is_string())),
        "jku" | "kid" | "x5u" | "x5t" | "x5t#S256" | "cty" => value.is_string(),
        _ => true,
    }
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    (
        option::weighted(0.85, client_id()),
        prop_oneof![
            8 => Just(Inner::Same),
            1 => Just(Inner::Absent),
            1 => client_id().prop_map(Inner::Other),
            4 => (0u8..9).prop_map(Inner::Near),
            4 => gen::twist().prop_map(Inner::Twist),
        ],
        select(vec![Mode::Value, Mode::Value, Mode::Reference, Mode::Direct]),
        prop_oneof![
            12 => Just(Shape::Good),
            3 => select(vec![
                Shape::NoDots, Shape::OneDot, Shape::ExtraPart, Shape::HeaderNotBase64, Shape::HeaderPadded,
                Shape::HeaderNotJson, Shape::HeaderNotObject, Shape::PayloadNotObject,
                Shape::PayloadNotBase64, Shape::Empty, Shape::PlainJson,
            ]),
        ],
        prop_oneof![
            6 => Just(Some(json!(TYP))),
            3 => select(vec!["JWT", "jwt", "", "OAUTH-AUTHZ-REQ+JWT", "oauth-authz-req+JWT", "oauth-authz-req", "oauth-authz-req+jwt ", " oauth-authz-req+jwt", "application/oauth-authz-req+jwt", "oauth-authz-req+jwt+x", "req+jwt", "at+jwt"]).prop_map(|s| Some(json!(s))),
            1 => select(vec![json!(null), json!(1), json!([TYP]), json!({"typ": TYP}), json!(true)]).prop_map(Some),
            2 => Just(None),
            2 => gen::twist().prop_map(|t| Some(json!(t.apply(TYP)))),
            1 => gen::json_value().prop_map(Some),
        ],
        any::<bool>(),
        ("[a-z]{1,5}", super::tamper::claims(), header()),
        (0u8..3, super::tamper::echoes(), any::<bool>(), gen::answer_headers()),
    )
        .prop_map(|(outer, inner, mode, shape, typ, via_url, (nonce, claims, header), (key, echoes, own_address, answer_headers))| Plan {
            outer,
            inner,
            mode,
            shape,
            typ,
            via_url,
            nonce,
            claims,
            header,
            key,
            echoes,
            own_address,
            answer_headers,
        })
        .boxed()
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let inner = match (&p.inner, &p.outer) {
        (Inner::Absent, _) => None,
        (Inner::Same, o) => o.clone().or(Some("client".into())),
        (Inner::Other(s), _) => Some(s.clone()),
        (Inner::Twist(t), o) => Some(t.apply(o.as_deref().unwrap_or("client"))),
        (Inner::Near(k), o) => Some(near(o.as_deref().unwrap_or("client"), *k)),
    };
    let mut payload = Json::Object(if p.mode == Mode::Direct { Map::new() } else { p.claims.clone() });
    super::tamper::add_needed(&mut payload, &p.nonce);
    if let Some(c) = &inner {
        if !(p.mode == Mode::Direct && p.via_url && p.outer.is_some()) {
            payload["client_id"] = json!(c);
        }
    }
    let mut header = p.header.clone();
    if p.mode != Mode::Direct {
        let mut names: Vec<String> = [&p.outer, &inner].into_iter().flatten().cloned().collect();
        let bare: Vec<String> = names.iter().filter_map(|n| n.split_once(':')).map(|x| x.1.to_string()).collect();
        names.extend(bare);
        super::tamper::add_echoes(&mut header, &mut payload, &p.echoes, &names);
    }
    header.insert("alg".into(), json!("ES256"));
    if let Some(t) = &p.typ {
        header.insert("typ".into(), t.clone());
    }
    let good = sign_jws(p.key, &Json::Object(header.clone()), &payload);
    let parts: Vec<&str> = good.split('.').collect();
    let jwt = match p.shape {
        Shape::Good => good.clone(),
        Shape::NoDots => parts.concat(),
        Shape::OneDot => format!("{}.{}", parts[0], parts[1]),
        Shape::ExtraPart => format!("{good}.{}", parts[2]),
        Shape::HeaderNotBase64 => format!("*{good}"),
        Shape::HeaderPadded => format!("{}=.{}.{}", parts[0], parts[1], parts[2]),
        Shape::HeaderNotJson => sign_jws_raw(p.key, "{\"alg\":\"ES256\",\"typ\":\"oauth-authz-req+jwt\"", payload.to_string().as_bytes()),
        Shape::HeaderNotObject => sign_jws(p.key, &json!(["alg", "ES256", "typ", TYP]), &payload),
        Shape::PayloadNotObject => sign_jws(p.key, &Json::Object(header), &json!([payload])),
        Shape::PayloadNotBase64 => format!("{}.*{}.{}", parts[0], parts[1], parts[2]),
        Shape::Empty => String::new(),
        Shape::PlainJson => payload.to_string(),
    };
    let mut listed: Vec<String> = vec!["pre-registered".into()];
    for id in [&p.outer, &inner].into_iter().flatten() {
        if let Some((x, _)) = id.split_once(':') {
            listed.push(x.to_string());
        }
    }
    if listed.iter().any(|x| x == "origin") {
        return Ok(());
    }
    let meta = metadata(json!({"client_id_prefixes_supported": listed}));
    let http = MockHttp::new(HttpAnswer::Answer {
        status: 200,
        body: jwt.clone().into_bytes(),
    })
    .with_headers(&p.answer_headers);
    let w = RecordingWallet::new(meta, http, true);
    let own: Option<url::Url> = p.outer.as_ref().filter(|_| p.own_address).and_then(|o| o.strip_prefix("redirect_uri:").unwrap_or(o).parse().ok());
    let own = own.filter(|u: &url::Url| matches!(u.scheme(), "http" | "https") && u.fragment().is_none());
    let req = AuthorizationRequest {
        client_id: p.outer.clone(),
        request_indirection: match p.mode {
            Mode::Value => RequestIndirection::ByValue { request: jwt.clone() },
            Mode::Reference => RequestIndirection::ByReference {
                request_uri: own.unwrap_or("https://verifier.example/ref".parse().unwrap()),
            },
            Mode::Direct => RequestIndirection::Direct(uo(payload.clone())),
        },
    };
    let got = if p.via_url {
        let url = req
            .to_url("openid4vp:".parse().unwrap())
            .map_err(|e| format!("to_url: {e:#}"))?;
        run!(w.validate_request(url))
    } else {
        run!(req.validate(&w))
    };
    let err = got.as_ref().err().map(|e| format!("{e:#}"));
    let calls = w.seen();
    if p.mode == Mode::Direct {
        let given = payload.get("client_id").and_then(|c| c.as_str()).map(String::from);
        let id = p.outer.clone().or(given);
        let r = match got {
            Ok(r) => r,
            Err(_) => crate::fail!("unsigned request refused: {err:?}"),
        };
        obs.nontrivial();
        obs.label("unsigned");
        ensure_eq!(r.client_id().map(|c| c.0.clone()), id, "client identifier of an unsigned request");
        let mut want = payload.clone();
        if let Some(id) = id {
            want["client_id"] = json!(id);
        }
        ensure_eq!(serde_json::to_value(&r).unwrap(), want, "unsigned request");
        ensure_eq!(calls.len(), 1, "number of verifications");
        ensure_eq!(calls[0].request, want, "request handed to the verification");
        return Ok(());
    }
    let redirect = p.outer.as_ref().is_some_and(|o| o.starts_with("redirect_uri:"));
    let typ_ok = p.typ == Some(json!(TYP));
    if p.shape != Shape::Good || !(typ_ok || redirect) {
        if p.shape == Shape::Good {
            obs.nontrivial();
            obs.label("refused for its type");
        } else {
            obs.label("refused: not a request object");
        }
        ensure!(got.is_err(), "accepted although it is no request object of the right type ({:?}, typ {:?})", p.shape, p.typ);
        ensure!(calls.is_empty(), "processed although it is no request object of the right type ({:?}, typ {:?}): {calls:?}", p.shape, p.typ);
        return Ok(());
    }
    if !typ_ok && !matches!(p.typ, None | Some(Json::String(_))) {
        // a redirect_uri request whose typ is no text at all
        return Ok(());
    }
    match (&p.outer, &inner) {
        (Some(o), Some(i)) if o != i => {
            obs.nontrivial();
            obs.label("refused: identifiers differ");
            ensure!(got.is_err(), "accepted although the outer client identifier is {o:?} and the inner one is {i:?}");
        }
        (Some(_), None) => {
            if let Ok(r) = &got {
                ensure_eq!(serde_json::to_value(r).unwrap(), payload, "request object");
            }
        }
        _ => {
            obs.nontrivial();
            obs.label(if redirect && !typ_ok { "accepted, redirect_uri without type" } else { "accepted" });
            let r = match got {
                Ok(r) => r,
                Err(_) => crate::fail!("refused although identifiers and type are right: {err:?}"),
            };
            ensure_eq!(serde_json::to_value(&r).unwrap(), payload, "request object");
            ensure_eq!(r.client_id().map(|c| c.0.clone()), inner, "client identifier");
            ensure_eq!(calls.len(), 1, "number of verifications");
            ensure_eq!(calls[0].jwt.as_ref(), Some(&jwt), "signed request handed to the verification");
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        level: "exploration",
        assumptions: &["the wallet's own verification of the client accepts; a request object without a client identifier inside an identified envelope is not decided (the statement speaks of identifiers that are both present)"],
        subs: vec![Box::new(SubCheck {
            name: "envelope",
            rule: "accepted, or refused for the identifiers or for the type of an otherwise well-formed request object",
            quick: 40_000,
            thorough: 1_000_000,
            strat,
            examples: no_examples,
            test,
        })],
    }
}
