//! C12: a wallet submits its response once, to the right place, or not at all.
use openid4vp::{core::response::AuthorizationResponse, wallet::Wallet as _};
use proptest::{collection::vec, option, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};

use super::c11::{resp, Resp};
use crate::{ensure, ensure_eq, fw::*, gen, kit::*, run};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Body {
    Blank(String),
    /// JSON without a textual redirect address.
    Json(Json),
    Redirect(String, bool),
    NotJson(String),
    Bytes(Vec<u8>),
    /// A JSON body with a byte that is not UTF-8 inside a text.
    Broken(Json, u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    mode: u8,
    uri: String,
    resp: Resp,
    fitting: bool,
    status: Option<u16>,
    body: Body,
    /// Other members of the request.
    #[serde(default)]
    extra: serde_json::Map<String, Json>,
    /// Headers of the answer.
    headers: Vec<(String, String)>,
    client_id: Option<String>,
    /// Which names coincide.
    again: u8,
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    (
        prop_oneof![4 => Just(0u8), 4 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)],
        prop_oneof![
            6 => gen::http_url(),
            1 => select(vec![
                "https://verifier.example/?", "https://verifier.example/a/b?", "https://verifier.example//a//b/", "https://user@verifier.example/a", "https://verifier.example/a%2Fb/%E6%BC%A2?q=%26%3D",
                "https://verifier.example/a?b?c=/d", "https://verifier.example/;p=1?x", "http://[::1]:8080/a", "http://127.0.0.1/", "https://verifier.example:8443/r/1?vp_token=x&response=y&state=z", "https://verifier.example/r?a=1&a=2",
            ]).prop_map(String::from),
        ],
        resp(),
        option::weighted(0.85, "[A-Za-z0-9_-]{1,9}(\\.[A-Za-z0-9_-]{0,9}){4}"),
        prop_oneof![
            10 => Just(Some(200u16)),
            2 => (200u16..300).prop_map(Some),
            2 => select(vec![100u16, 199, 300, 302, 303, 307, 400, 401, 404, 410, 499, 500, 503, 599, 600, 999]).prop_map(Some),
            1 => (100u16..1000).prop_map(Some),
            1 => Just(None),
        ],
        prop_oneof![
            2 => select(vec!["", " ", "\n", "\r\n\t ", "\u{a0}", "\u{2028}"]).prop_map(|s| Body::Blank(s.into())),
            2 => gen::json_value().prop_map(Body::Json),
            1 => prop_oneof![Just(json!({})), gen::json_scalar().prop_map(|j| json!({"redirect_uri": j})), gen::json_object().prop_map(Json::Object)].prop_map(Body::Json),
            1 => (prop_oneof![select(vec!["redirectUri", "redirect_url", "redirect", "Location", "location", "uri", "url", "Redirect_uri", "redirect_uri ", "response_uri"]).prop_map(String::from), gen::twist().prop_map(|t| t.apply("redirect_uri")), gen::word(), gen::extension_name()], gen::http_url(), 0u8..3).prop_map(|(k, u, how)| Body::Json(match how { 0 => json!([{ k: u }]), 1 => json!({ k: { "redirect_uri": u } }), _ => json!({ k: u }) })),
            1 => (gen::http_url(), 0u8..4).prop_map(|(u, how)| Body::Json(match how { 0 => json!([{ "redirect_uri": u }]), 1 => json!({ "redirect_uri": [u] }), 2 => json!(u), _ => json!({ "redirect_uri": { "redirect_uri": u } }) })),
            1 => (gen::http_url(), gen::twist()).prop_map(|(u, t)| Body::Redirect(t.apply(&u), false)),
            1 => gen::text().prop_map(Body::NotJson),
            1 => (gen::twist(), gen::http_url()).prop_map(|(t, u)| Body::NotJson(t.apply(&json!({ "redirect_uri": u }).to_string()))),
            4 => (prop_oneof![3 => gen::http_url(), 1 => gen::endpoint(), 1 => select(vec!["https://verifier.example/cb#response_code=abc", "custom:/x?y=1#z", "http://a.example/?x=1&y=%20"]).prop_map(String::from)], any::<bool>()).prop_map(|(u, b)| Body::Redirect(u, b)),
            1 => (select(vec!["/relative", "", "https://", "not a url", "//host/x", "https://exa mple/"]).prop_map(String::from), any::<bool>()).prop_map(|(u, b)| Body::Redirect(u, b)),
            1 => select(vec!["<html></html>", "OK", "{", "{\"redirect_uri\":\"https://a.example\"", "{\"redirect_uri\":\"https://a.example\"} x", "redirect_uri=https://a.example", "https://a.example", "{'a':1}"]).prop_map(|s| Body::NotJson(s.into())),
            1 => vec(any::<u8>(), 1..20).prop_map(Body::Bytes),
            1 => (select(vec![json!({"redirect_uri": "https://verifier.example/cb?x=@@"}), json!({"a": "@@", "redirect_uri": "https://verifier.example/cb"}), json!("@@"), json!({"@@": 1})]), any::<u8>()).prop_map(|(j, b)| Body::Broken(j, b)),
        ],
        (gen::bystanders(), gen::answer_headers(), option::weighted(0.8, prop_oneof![Just("client".to_string()), gen::phrase(), gen::http_url()]), prop_oneof![3 => Just(0u8), 2 => 1u8..9]),
    )
        .prop_map(|(mode, uri, r, jwe, status, mut body, (mut extra, headers, mut client_id, again))| {
            match (again, &mut body) {
                (1, Body::Redirect(u, _)) => *u = uri.clone(),
                (2, _) => client_id = Some(format!("redirect_uri:{uri}")),
                (3, _) => client_id = Some(uri.clone()),
                (4, _) => drop(extra.insert("state".into(), json!(uri))),
                (5, Body::Redirect(u, _)) => drop(extra.insert("state".into(), json!(u))),
                (6, Body::Redirect(u, _)) => client_id = Some(format!("redirect_uri:{u}")),
                (7, _) => drop(extra.insert("client_metadata".into(), json!({"redirect_uris": [uri]}))),
                _ => {}
            }
            // make most responses fit the mode
            let fit = jwe.is_some();
            let resp = match (mode % 2, r, jwe) {
                (1, Resp::Plain { .. }, Some(j)) => Resp::Encrypted(j),
                (0, Resp::Encrypted(s), Some(_)) => Resp::Plain {
                    token: vec![("q".into(), vec![super::c11::Item::Text(s)])],
                    state: None,
                },
                (_, r, _) => r,
            };
            Plan {
                mode,
                uri,
                resp,
                fitting: fit,
                status,
                body,
                extra,
                headers,
                client_id,
                again,
            }
        })
        .boxed()
}

const MODES: [&str; 4] = ["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"];

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let body: Vec<u8> = match &p.body {
        Body::Blank(s) => s.clone().into_bytes(),
        Body::Json(j) => j.to_string().into_bytes(),
        Body::Redirect(u, more) => {
            let mut j = json!({"redirect_uri": u});
            if *more {
                j["other"] = json!({"redirect_uri": "https://other.example/"});
            }
            serde_json::to_vec_pretty(&j).unwrap()
        }
        Body::NotJson(s) => s.clone().into_bytes(),
        Body::Bytes(b) => b.clone(),
        Body::Broken(j, b) => {
            let mut t = j.to_string().into_bytes();
            let at = t.windows(2).position(|w| w == b"@@").unwrap_or(0);
            t[at] = 0x80 | *b;
            t
        }
    };
    let http = MockHttp::new(match p.status {
        None => HttpAnswer::TransportError,
        Some(status) => HttpAnswer::Answer {
            status,
            body: body.clone(),
        },
    })
    .with_headers(&p.headers);
    let mut request = json!({
        "response_type": "vp_token",
        "response_mode": MODES[p.mode as usize % 4],
        "nonce": "n",
        "state": "other state",
    });
    if let Some(c) = &p.client_id {
        request["client_id"] = json!(c);
    }
    for (k, v) in &p.extra {
        if k == "client_id" {
            continue;
        }
        if request.get(k).is_none() || k == "state" {
            request[k] = v.clone();
        }
    }
    if let (8, Resp::Plain { state, .. }) = (p.again, &p.resp) {
        request["state"] = json!(state.clone().unwrap_or_default());
    }
    if p.mode < 2 {
        request["response_uri"] = json!(p.uri);
    }
    let request = match aro(request) {
        Ok(r) => r,
        Err(e) => crate::fail!("request object refused: {e:#}"),
    };
    let w = RecordingWallet::new(metadata(json!({})), http.clone(), true);
    let got = run!(w.submit_response(request, p.resp.lib()));
    let err = got.as_ref().err().map(|e| format!("{e:#}"));
    let seen = http.requests();
    if p.mode >= 2 {
        obs.label("digital credentials");
        obs.nontrivial();
        ensure!(seen.is_empty(), "a response for the digital-credentials API was sent over HTTP: {seen:?}");
        return Ok(());
    }
    let fits = matches!(p.resp, Resp::Encrypted(_)) == (p.mode == 1);
    if !fits {
        obs.nontrivial();
        obs.label("wrong kind of response");
        ensure!(seen.is_empty(), "a response of the wrong kind was sent: {seen:?}");
        ensure!(got.is_err(), "a response of the wrong kind was accepted");
        return Ok(());
    }
    obs.nontrivial();
    ensure_eq!(seen.len(), 1, "number of HTTP requests ({err:?})");
    let r = &seen[0];
    ensure_eq!(r.method, "POST", "method");
    ensure_eq!(r.uri, p.uri, "address");
    ensure_eq!(r.header("content-type"), vec!["application/x-www-form-urlencoded"], "content type");
    let back = AuthorizationResponse::from_x_www_form_urlencoded(&r.body).map_err(|e| format!("the body sent does not decode: {e:#}"))?;
    p.resp.same(&back).map_err(|f| Fail::from(format!("response sent: {}", f.msg)))?;
    // and as an independent decoder reads it
    let mut want: Vec<(String, Json)> = p.resp.json().as_object().unwrap().clone().into_iter().collect();
    want.sort_by(|a, b| a.0.cmp(&b.0));
    let mut sent: Vec<(String, Json)> = vec![];
    for (k, v) in url::form_urlencoded::parse(&r.body).into_owned() {
        let v = if k == "vp_token" { serde_json::from_str(&v).map_err(|e| e.to_string())? } else { json!(v) };
        sent.push((k, v));
    }
    sent.sort_by(|a, b| a.0.cmp(&b.0));
    ensure_eq!(sent, want, "form sent");

    // the result
    let success = p.status.is_some_and(|s| (200..300).contains(&s));
    let expect: Result<Option<url::Url>, &str> = if p.status.is_none() {
        Err("transport failure")
    } else if !success {
        Err("error status")
    } else {
        match std::str::from_utf8(&body) {
            Err(_) => Err("body not UTF-8"),
            Ok(t) if t.trim().is_empty() => Ok(None),
            Ok(t) => match serde_json::from_str::<Json>(t) {
                Err(_) => Err("body not JSON"),
                Ok(j) => match j.get("redirect_uri") {
                    Some(Json::String(u)) => url::Url::parse(u).map(Some).map_err(|_| "invalid redirect address"),
                    _ => Ok(None),
                },
            },
        }
    };
    obs.label(match &expect {
        Ok(Some(_)) => "redirect",
        Ok(None) => "no redirect",
        Err(e) => e,
    });
    match (&expect, &got) {
        (Ok(a), Ok(b)) => ensure_eq!(b.as_ref().map(|u| u.to_string()), a.as_ref().map(|u| u.to_string()), "redirect address"),
        (Err(_), Err(_)) => {}
        (Err(why), Ok(b)) => crate::fail!("success ({b:?}) reported in spite of: {why}"),
        (Ok(a), Err(_)) => crate::fail!("error reported ({err:?}), expected {a:?}"),
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        level: "exploration",
        assumptions: &["absolute http(s) response addresses without a fragment; the transport is a stand-in behind the library's HTTP client trait (the bundled one is C28)"],
        subs: vec![Box::new(SubCheck {
            name: "submit",
            rule: "every case: a response is sent, or must not be sent",
            quick: 30_000,
            thorough: 800_000,
            strat,
            examples: no_examples,
            test,
        })],
    }
}
