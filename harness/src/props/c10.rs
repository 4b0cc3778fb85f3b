//! C10: authorization request URLs decode to what was encoded, at one endpoint only.
use openid4vp::core::authorization_request::{AuthorizationRequest, RequestIndirection};
use proptest::{option, prelude::*, sample::select};

use crate::gen::vec;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};
use url::Url;

use crate::{ensure, ensure_eq, fw::*, gen, kit::*};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Req {
    Value(String),
    Reference(String),
    Direct(Vec<(String, String)>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    endpoint: String,
    /// A query and fragment the endpoint already has.
    old_query: Option<String>,
    fragment: Option<String>,
    client_id: Option<String>,
    req: Req,
    other: Other,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Other {
    Endpoint(String),
    Near(u8),
    /// A near miss of the whole address.
    Twist(gen::Twist),
    /// A near miss of the authority, or of the path.
    Part(gen::Twist, bool),
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    (
        gen::endpoint().prop_map(|e| {
            let mut u = Url::parse(&e).unwrap();
            u.set_query(None);
            u.to_string()
        }),
        option::weighted(0.2, "[a-z]{1,3}=[a-z0-9]{0,3}"),
        option::weighted(0.1, "[a-z]{1,3}"),
        option::weighted(0.9, gen::text()),
        prop_oneof![
            3 => prop_oneof![gen::text(), "[A-Za-z0-9_-]{4,20}\\.[A-Za-z0-9_-]{4,20}\\.[A-Za-z0-9_-]{4,20}"].prop_map(Req::Value),
            3 => prop_oneof![4 => gen::http_url(), 1 => gen::endpoint()].prop_map(Req::Reference),
            3 => vec((prop_oneof![3 => gen::ident(), 1 => gen::text(), 1 => select(vec!["nonce", "response_type", "response_uri", "state", "response_mode"]).prop_map(String::from)], gen::text()), 0..5)
                .prop_map(|v| Req::Direct(v.into_iter().filter(|(k, _)| !["client_id", "request", "request_uri"].contains(&k.as_str())).collect())),
        ],
        prop_oneof![1 => gen::endpoint().prop_map(Other::Endpoint), 3 => (0u8..16).prop_map(Other::Near), 3 => gen::twist().prop_map(Other::Twist), 4 => (gen::twist(), any::<bool>()).prop_map(|(t, b)| Other::Part(t, b))],
    )
        .prop_map(|(endpoint, old_query, fragment, client_id, req, other)| Plan {
            endpoint,
            old_query,
            fragment,
            client_id,
            req,
            other,
        })
        .boxed()
}

/// Scheme, authority and path of a serialized URL, read off the text.
fn split(u: &Url) -> (String, String, String) {
    let s = u.as_str();
    let (scheme, rest) = s.split_once(':').unwrap();
    let rest = rest.split(['?', '#']).next().unwrap();
    match rest.strip_prefix("//") {
        Some(r) => {
            let i = r.find('/').unwrap_or(r.len());
            (scheme.into(), r[..i].into(), r[i..].into())
        }
        None => (scheme.into(), String::new(), rest.into()),
    }
}

fn near(u: &Url, k: u8) -> Option<Url> {
    let (s, a, p) = split(u);
    let sep = if u.as_str().contains("://") { "://" } else { ":" };
    let join = |s: &str, a: &str, p: &str| format!("{s}{sep}{a}{p}");
    let last = p.len().saturating_sub(1);
    let t = match k {
        0 => join(&s, &a, &format!("{p}/")),
        1 => join(&s, &a, &p.to_uppercase()),
        2 if p.is_char_boundary(last) => join(&s, &a, &p[..last]),
        3 => join(&s, &format!("{a}x"), &p),
        4 => join(&s, &format!("x.{a}"), &p),
        5 => join(&s, &format!("{a}:8443"), &p),
        6 => join(&s, &format!("user@{a}"), &p),
        7 => join(&s, &format!("{a}.evil.example"), &p),
        8 => join(&s, &a, &format!("{p}x")),
        9 => join(&s, &a, &format!("/x{p}")),
        10 => join(&s, a.split(':').next().unwrap_or(""), &p),
        11 => join(&format!("{s}x"), &a, &p),
        12 => join("https", &a, &p),
        13 => join(&s, &a, &p.replacen("%", "%25", 1)),
        14 => join(&s, &a, ""),
        _ => join(&s, &a.to_uppercase(), &p),
    };
    Url::parse(&t).ok()
}

fn indirection(r: &Req) -> RequestIndirection {
    match r {
        Req::Value(s) => RequestIndirection::ByValue { request: s.clone() },
        Req::Reference(u) => RequestIndirection::ByReference {
            request_uri: u.parse().unwrap(),
        },
        Req::Direct(v) => RequestIndirection::Direct(uo(Json::Object(
            v.iter()
                .map(|(k, v)| (k.clone(), json!(v)))
                .collect::<Map<_, _>>(),
        ))),
    }
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let bare: Url = p.endpoint.parse().map_err(|e| format!("{e}"))?;
    let mut endpoint = bare.clone();
    endpoint.set_query(p.old_query.as_deref());
    endpoint.set_fragment(p.fragment.as_deref());
    let ind = indirection(&p.req);
    let req = AuthorizationRequest {
        client_id: p.client_id.clone(),
        request_indirection: ind.clone(),
    };
    let url = match req.to_url(endpoint.clone()) {
        Ok(u) => u,
        Err(e) => crate::fail!("request not encodable: {e:#}"),
    };
    obs.nontrivial();
    ensure_eq!(split(&url), split(&bare), "scheme, authority and path of the request URL");
    // what an independent decoder reads
    let mut pairs: Vec<(String, String)> = url::form_urlencoded::parse(url.query().unwrap_or_default().as_bytes())
        .into_owned()
        .collect();
    pairs.sort();
    let mut want: Vec<(String, String)> = p.client_id.iter().map(|c| ("client_id".to_string(), c.clone())).collect();
    match &p.req {
        Req::Value(s) => want.push(("request".into(), s.clone())),
        Req::Reference(u) => want.push(("request_uri".into(), u.clone())),
        Req::Direct(v) => {
            let m: std::collections::BTreeMap<_, _> = v.iter().cloned().collect();
            want.extend(m);
        }
    }
    want.sort();
    ensure_eq!(pairs, want, "parameters in the request URL");
    let again = |u: &str| -> Result<Url, Fail> { Ok(u.parse::<Url>().map_err(|e| e.to_string())?) };
    for (how, at) in [("the endpoint", &bare), ("the endpoint with its query", &endpoint)] {
        let back = AuthorizationRequest::from_url(again(url.as_str())?, at)
            .map_err(|e| format!("decoding against {how}: {e:#}"))?;
        ensure_eq!(back.client_id, p.client_id, "client identifier decoded against {how}");
        ensure_eq!(back.request_indirection, ind, "request decoded against {how}");
    }
    let q = url.query().unwrap_or_default();
    let back = AuthorizationRequest::from_query_params(q).map_err(|e| format!("decoding the query: {e:#}"))?;
    ensure_eq!(back.client_id, p.client_id, "client identifier decoded from the query");
    ensure_eq!(back.request_indirection, ind, "request decoded from the query");
    // order of the parameters and the choice of encoding do not matter
    let mut enc: Vec<String> = pairs
        .iter()
        .rev()
        .map(|(k, v)| {
            let f = |s: &str| s.bytes().map(|b| format!("%{b:02X}")).collect::<String>();
            format!("{}={}", f(k), f(v))
        })
        .collect();
    enc.dedup();
    let back = AuthorizationRequest::from_query_params(&enc.join("&")).map_err(|e| format!("decoding a query in another encoding: {e:#}"))?;
    ensure_eq!(back.client_id, p.client_id, "client identifier decoded from another encoding");
    ensure_eq!(back.request_indirection, ind, "request decoded from another encoding");
    // another endpoint
    let other = match &p.other {
        Other::Endpoint(e) => Url::parse(e).ok(),
        Other::Near(k) => near(&bare, *k),
        Other::Twist(t) => Url::parse(&t.apply(bare.as_str())).ok(),
        Other::Part(t, authority) => {
            let (s, a, x) = split(&bare);
            let sep = if bare.as_str().contains("://") { "://" } else { ":" };
            Url::parse(&if *authority { format!("{s}{sep}{}{x}", t.apply(&a)) } else { format!("{s}{sep}{a}{}", t.apply(&x)) }).ok()
        }
    };
    if let Some(other) = other {
        obs.extra(1);
        let (_, a, x) = split(&bare);
        let (_, b, y) = split(&other);
        let same = a == b && x == y;
        obs.label(if same { "equivalent endpoint" } else if a == b { "other path" } else { "other authority" });
        let got = AuthorizationRequest::from_url(url.clone(), &other);
        ensure_eq!(got.is_ok(), same, "decoding {url} against the endpoint {other} ({:?})", got.as_ref().err().map(|e| format!("{e:#}")));
    }
    let mut none = url.clone();
    none.set_query(None);
    ensure!(AuthorizationRequest::from_url(none, &bare).is_err(), "a URL without a query was decoded");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        level: "exploration",
        assumptions: &["parameters of unsigned requests are text, as in any query string; endpoints are parsed and compared in the URL standard's normal form"],
        subs: vec![Box::new(SubCheck {
            name: "url",
            rule: "every case: the request was encoded and decoded",
            quick: 30_000,
            thorough: 800_000,
            strat,
            examples: no_examples,
            test,
        })],
    }
}
