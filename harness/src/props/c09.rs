//! C09: a request object is parsed exactly by the protocol's parameter rules.
use openid4vp::core::{
    authorization_request::{
        parameters::{ResponseMode, ResponseType},
        AuthorizationRequest, AuthorizationRequestObject, RequestIndirection,
    },
    object::UntypedObject,
};
use proptest::{option, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};

use crate::{ensure_eq, fw::*, gen, kit::*, run};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    client_id: Option<Json>,
    response_type: Option<Json>,
    nonce: Option<Json>,
    response_mode: Option<Json>,
    response_uri: Option<Json>,
    redirect_uri: Option<Json>,
    state: Option<Json>,
    dcql: Option<gen::DcqlPlan>,
    metadata: Option<Json>,
    extra: Map<String, Json>,
}

fn not_text() -> BoxedStrategy<Json> {
    select(vec![json!(null), json!(1), json!(true), json!(["x"]), json!({"a": 1}), json!([]), json!({})]).boxed()
}

fn field(good: u32, bad: u32, absent: u32, s: BoxedStrategy<String>) -> BoxedStrategy<Option<Json>> {
    prop_oneof![
        good => s.prop_map(|s| Some(json!(s))),
        bad => not_text().prop_map(Some),
        absent => Just(None),
    ]
    .boxed()
}

fn uri() -> BoxedStrategy<String> {
    prop_oneof![
        10 => gen::http_url(),
        2 => gen::endpoint(),
        1 => select(vec!["HTTPS://Example.COM:443/a/../b", "https://example.com/a b", "https://example.com#f", "https://user:pw@example.com/", "mailto:a@b", "data:,x", "http://[::1]:80/", "https://exa mple.com/", "//example.com/x", "/path", "", "https://", "not a url", "https://[::1", "https:example.com", "urn:x:y", "https://example.com:99999/", "http:/a"]).prop_map(String::from),
        1 => gen::text(),
    ]
    .boxed()
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    let modes = prop_oneof![
        5 => Just("direct_post".to_string()),
        5 => Just("direct_post.jwt".to_string()),
        4 => Just("dc_api".to_string()),
        4 => Just("dc_api.jwt".to_string()),
        2 => select(vec!["query", "fragment", "form_post", "direct_post ", "Direct_post", "direct_post.JWT", "", "dc_api.jw", "post", "query.jwt", "jwt", "direct-post", "dc_api_jwt"]).prop_map(String::from),
    ]
    .boxed();
    (
        field(14, 1, 3, prop_oneof![2 => gen::text(), 2 => (gen::ident(), gen::text()).prop_map(|(a, b)| format!("{a}:{b}"))].boxed()),
        field(18, 1, 1, prop_oneof![4 => Just("vp_token".to_string()), 2 => Just("vp_token id_token".to_string()), 1 => select(vec!["code", "id_token vp_token", "id_token", "VP_TOKEN", ""]).prop_map(String::from), 1 => gen::text()].boxed()),
        field(18, 1, 1, gen::text()),
        field(20, 1, 4, modes),
        // direct-post modes need it and the others forbid it
        field(12, 1, 9, uri()),
        field(2, 1, 24, uri()),
        field(4, 1, 5, gen::text()),
        option::weighted(0.2, gen::small_dcql()),
        option::weighted(0.3, prop_oneof![4 => gen::json_object().prop_map(Json::Object), 1 => not_text()]),
        gen::extension_params(),
    )
        .prop_map(|(client_id, response_type, nonce, response_mode, response_uri, redirect_uri, state, dcql, metadata, extra)| Plan {
            client_id,
            response_type,
            nonce,
            response_mode,
            response_uri,
            redirect_uri,
            state,
            dcql,
            metadata,
            extra,
        })
        .boxed()
}

fn object(p: &Plan) -> Map<String, Json> {
    let mut o = p.extra.clone();
    for (k, v) in [
        ("client_id", &p.client_id),
        ("response_type", &p.response_type),
        ("nonce", &p.nonce),
        ("response_mode", &p.response_mode),
        ("response_uri", &p.response_uri),
        ("redirect_uri", &p.redirect_uri),
        ("state", &p.state),
        ("client_metadata", &p.metadata),
    ] {
        if let Some(v) = v {
            o.insert(k.into(), v.clone());
        }
    }
    if let Some(d) = &p.dcql {
        o.insert("dcql_query".into(), d.json());
    }
    o
}

const MODES: [&str; 4] = ["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"];

fn expected(p: &Plan) -> bool {
    let text = |f: &Option<Json>| f.as_ref().is_some_and(|j| j.is_string());
    if p.client_id.is_some() && !text(&p.client_id) {
        return false;
    }
    if !text(&p.response_type) || !text(&p.nonce) {
        return false;
    }
    let mode = match &p.response_mode {
        None => "direct_post",
        Some(Json::String(s)) if MODES.contains(&s.as_str()) => s,
        Some(_) => return false,
    };
    if p.response_uri.is_some() && p.redirect_uri.is_some() {
        return false;
    }
    if mode.starts_with("direct_post") {
        matches!(&p.response_uri, Some(Json::String(u)) if url::Url::parse(u).is_ok())
    } else {
        p.response_uri.is_none() && p.redirect_uri.is_none()
    }
}

fn check_accepted(r: &AuthorizationRequestObject, p: &Plan, o: &Map<String, Json>) -> Check {
    let text = |f: &Option<Json>| f.as_ref().and_then(|j| j.as_str()).map(String::from);
    let id = text(&p.client_id);
    ensure_eq!(r.client_id().map(|c| c.0.clone()), id, "client identifier");
    ensure_eq!(
        r.client_id_scheme().map(|c| c.0.clone()),
        id.as_ref().and_then(|c| c.split_once(':')).map(|x| x.0.to_string()),
        "client identifier prefix"
    );
    let rt = text(&p.response_type).unwrap();
    let want = match rt.as_str() {
        "vp_token" => ResponseType::VpToken,
        "vp_token id_token" => ResponseType::VpTokenIdToken,
        _ => ResponseType::Unsupported(rt.clone()),
    };
    ensure_eq!(*r.response_type(), want, "response type");
    ensure_eq!(
        r.is_id_token_requested(),
        match rt.as_str() {
            "vp_token" => Some(false),
            "vp_token id_token" => Some(true),
            _ => None,
        },
        "whether an ID token is requested"
    );
    let mode = text(&p.response_mode).unwrap_or("direct_post".into());
    let want = match mode.as_str() {
        "direct_post" => ResponseMode::DirectPost,
        "direct_post.jwt" => ResponseMode::DirectPostJwt,
        "dc_api" => ResponseMode::DcApi,
        _ => ResponseMode::DcApiJwt,
    };
    ensure_eq!(*r.response_mode(), want, "response mode");
    ensure_eq!(r.nonce().to_string(), text(&p.nonce).unwrap(), "nonce");
    if mode.starts_with("direct_post") {
        let u = url::Url::parse(&text(&p.response_uri).unwrap()).unwrap();
        ensure_eq!(*r.return_uri(), u, "response address");
    }
    match (&p.state, r.state()) {
        (None, None) => {}
        (Some(Json::String(s)), Some(Ok(x))) => ensure_eq!(x.0, *s, "state"),
        (Some(j), Some(Err(_))) if !j.is_string() => {}
        (a, b) => crate::fail!("state: got {b:?}, expected {a:?}"),
    }
    match (&p.dcql, r.dcql_query()) {
        (None, None) => {}
        (Some(d), Some(Ok(q))) => ensure_eq!(serde_json::to_value(q).unwrap(), d.json(), "query"),
        (a, b) => crate::fail!("query: got {b:?}, expected {a:?}"),
    }
    match (&p.metadata, r.client_metadata()) {
        (Some(Json::Object(m)), Ok(x)) => ensure_eq!(Json::from(x), Json::Object(m.clone()), "client metadata"),
        (Some(Json::Object(_)), Err(e)) => crate::fail!("client metadata unreadable: {e:#}"),
        (_, Ok(x)) => crate::fail!("client metadata from nowhere: {x:?}"),
        (_, Err(_)) => {}
    }
    let back = serde_json::to_value(r).map_err(|e| e.to_string())?;
    ensure_eq!(back, Json::Object(o.clone()), "JSON of the request object");
    let back: UntypedObject = r.clone().into();
    ensure_eq!(Json::from(back), Json::Object(o.clone()), "parameters of the request object");
    // what is added to an accepted object is there, and changes nothing else
    let mut r2 = r.clone();
    let name = format!("{mode}_{}", o.len());
    if !o.contains_key(&name) {
        *r2 = {
            let mut x: Map<String, Json> = o.clone();
            x.insert(name.clone(), json!(mode));
            serde_json::from_value(Json::Object(x)).map_err(|e| e.to_string())?
        };
        let mut want = o.clone();
        want.insert(name, json!(mode));
        ensure_eq!(serde_json::to_value(&r2).map_err(|e| e.to_string())?, Json::Object(want), "JSON of the extended request object");
        ensure_eq!((r2.client_id().map(|c| &c.0), r2.nonce().to_string(), r2.return_uri(), r2.response_mode()), (r.client_id().map(|c| &c.0), r.nonce().to_string(), r.return_uri(), r.response_mode()), "what the extended object reports");
    }
    Ok(())
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let o = object(p);
    let expect = expected(p);
    obs.nontrivial();
    obs.label(if expect { "accepted" } else { "refused" });
    let j = Json::Object(o.clone());
    let text = j.to_string();
    let un: UntypedObject = serde_json::from_value(j.clone()).map_err(|e| e.to_string())?;
    let jws = sign_jws(0, &json!({"alg": "ES256", "typ": TYP}), &j);
    let by_value = AuthorizationRequest {
        client_id: None,
        request_indirection: RequestIndirection::ByValue { request: jws },
    };
    let direct = AuthorizationRequest {
        client_id: None,
        request_indirection: RequestIndirection::Direct(un.clone()),
    };
    obs.extra(3);
    let ways: Vec<(&str, Result<AuthorizationRequestObject, String>)> = vec![
        ("parameters", un.try_into().map_err(|e: anyhow::Error| format!("{e:#}"))),
        ("JSON text", serde_json::from_str(&text).map_err(|e| e.to_string())),
        ("a signed request", run!(by_value.resolve_request(&MockHttp::none())).map(|x| x.0).map_err(|e| format!("{e:#}"))),
        ("an unsigned request", run!(direct.resolve_request(&MockHttp::none())).map(|x| x.0).map_err(|e| format!("{e:#}"))),
    ];
    for (how, r) in ways {
        match r {
            Ok(r) => {
                crate::ensure!(expect, "accepted from {how} against the rules: {r:?}");
                check_accepted(&r, p, &o).map_err(|f| Fail::from(format!("from {how}: {}", f.msg)))?;
            }
            Err(e) => crate::ensure!(!expect, "refused from {how} although it follows the rules: {e}"),
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        level: "exploration",
        assumptions: &["what a valid address is, is decided by the url crate (WHATWG URL)"],
        subs: vec![Box::new(SubCheck {
            name: "object",
            rule: "every case: the object is accepted or breaks at least one rule",
            quick: 30_000,
            thorough: 800_000,
            strat,
            examples: no_examples,
            test,
        })],
    }
}
