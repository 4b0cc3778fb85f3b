//! C11: authorization responses survive form encoding unchanged.
use openid4vp::core::{
    object::UntypedObject,
    response::{
        parameters::{State, VpToken, VpTokenItem},
        AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse,
    },
};
use proptest::{option, prelude::*, sample::select};

use crate::gen::vec;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};

use crate::{ensure, ensure_eq, fw::*, gen};

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Item {
    Text(String),
    Object(Map<String, Json>),
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Resp {
    Plain {
        token: Vec<(String, Vec<Item>)>,
        state: Option<String>,
    },
    Encrypted(String),
}

pub fn item() -> BoxedStrategy<Item> {
    prop_oneof![
        3 => gen::text().prop_map(Item::Text),
        1 => "[A-Za-z0-9_-]{4,20}\\.[A-Za-z0-9_-]{4,20}\\.[A-Za-z0-9_-]{4,20}(~[A-Za-z0-9_-]{1,9}){0,2}~?".prop_map(Item::Text),
        1 => select(vec!["null", "1", "true", "\"x\"", "{}", "{\"a\":1}", "[]", "[\"x\"]"]).prop_map(|s| Item::Text(s.into())),
        2 => gen::json_object().prop_map(Item::Object),
    ]
    .boxed()
}

pub fn resp() -> BoxedStrategy<Resp> {
    prop_oneof![
        5 => (
            vec((prop_oneof![2 => gen::ident(), 1 => gen::text()], vec(item(), 0..4)), 0..4),
            option::of(gen::text()),
            prop_oneof![4 => Just(0u8), 1 => 1u8..10],
        )
            .prop_map(|(token, state, same)| coincide(token, state, same)),
        1 => prop_oneof![30 => Just(3usize), 1 => gen::many()].prop_flat_map(|n| (item(), option::of(gen::text())).prop_map(move |(i, state)| Resp::Plain {
            token: (0..=n).map(|k| (format!("q{k}"), vec![i.clone()])).collect(),
            state,
        })),
        1 => prop_oneof![
            1 => gen::text(),
            2 => "[A-Za-z0-9_-]{4,20}\\.\\.[A-Za-z0-9_-]{4,20}\\.[A-Za-z0-9_-]{4,20}\\.[A-Za-z0-9_-]{4,20}",
        ]
        .prop_map(Resp::Encrypted),
    ]
    .boxed()
}

/// A response some of whose values coincide.
fn coincide(mut token: Vec<(String, Vec<Item>)>, mut state: Option<String>, same: u8) -> Resp {
    let text = token_json(&token).to_string();
    let id = token.first().map(|t| t.0.clone()).unwrap_or_default();
    let st = state.clone().unwrap_or_default();
    match same {
        1 => state = Some(text),
        2 => state = Some(id),
        3 => state = token.iter().flat_map(|t| &t.1).find_map(|i| if let Item::Text(s) = i { Some(s.clone()) } else { None }),
        4 => token.push((st, vec![Item::Text(text)])),
        5 => token.push((format!("{id}2"), token.first().map(|t| t.1.clone()).unwrap_or_default())),
        6 => {
            if let Some(t) = token.first_mut() {
                t.1.extend(t.1.clone());
            }
        }
        7 => token.push(("vp_token".into(), vec![Item::Text(st), Item::Text(text)])),
        8 => {
            if let Some(t) = token.first_mut() {
                t.1.insert(0, Item::Text(id));
                t.1.push(Item::Text(st));
            }
        }
        9 => token.push((text, vec![])),
        _ => {}
    }
    Resp::Plain { token, state }
}

pub fn lib_item(i: &Item) -> VpTokenItem {
    match i {
        Item::Text(s) => VpTokenItem::String(s.clone()),
        Item::Object(o) => VpTokenItem::JsonObject(o.clone()),
    }
}

pub fn lib_token(t: &[(String, Vec<Item>)]) -> VpToken {
    let mut v = VpToken::new();
    for (k, items) in t {
        v.insert(k.clone(), items.iter().map(lib_item).collect());
    }
    v
}

pub fn token_json(t: &[(String, Vec<Item>)]) -> Json {
    let mut o = Map::new();
    for (k, items) in t {
        o.insert(
            k.clone(),
            items
                .iter()
                .map(|i| match i {
                    Item::Text(s) => json!(s),
                    Item::Object(o) => Json::Object(o.clone()),
                })
                .collect::<Vec<_>>()
                .into(),
        );
    }
    Json::Object(o)
}

impl Resp {
    pub fn lib(&self) -> AuthorizationResponse {
        match self {
            Resp::Plain { token, state } => AuthorizationResponse::Unencoded(match state {
                None => UnencodedAuthorizationResponse::new(lib_token(token)),
                Some(s) => UnencodedAuthorizationResponse::with_state(lib_token(token), State(s.clone())),
            }),
            Resp::Encrypted(s) => AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: s.clone() }),
        }
    }

    pub fn json(&self) -> Json {
        match self {
            Resp::Plain { token, state } => {
                let mut j = json!({"vp_token": token_json(token)});
                if let Some(s) = state {
                    j["state"] = json!(s);
                }
                j
            }
            Resp::Encrypted(s) => json!({"response": s}),
        }
    }

    /// Compares a library response with the plan through its fields.
    pub fn same(&self, r: &AuthorizationResponse) -> Check {
        match (self, r) {
            (Resp::Plain { token, state }, AuthorizationResponse::Unencoded(u)) => {
                ensure_eq!(u.state().map(|s| s.0.clone()), *state, "state");
                ensure_eq!(u.state.as_ref().map(|s| s.0.clone()), *state, "state");
                let mut want: std::collections::BTreeMap<String, Vec<VpTokenItem>> = Default::default();
                for (k, v) in token {
                    want.insert(k.clone(), v.iter().map(lib_item).collect());
                }
                let got: std::collections::BTreeMap<String, Vec<VpTokenItem>> =
                    u.vp_token().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                ensure_eq!(got, want, "presentations");
            }
            (Resp::Encrypted(s), AuthorizationResponse::Jwt(j)) => {
                ensure_eq!(j.response, *s, "encrypted response");
            }
            (a, b) => crate::fail!("another kind of response: got {b:?}, expected {a:?}"),
        }
        Ok(())
    }

    pub fn form(&self) -> Result<String, Fail> {
        Ok(match self.lib() {
            AuthorizationResponse::Unencoded(u) => u.into_x_www_form_urlencoded(),
            AuthorizationResponse::Jwt(j) => j.into_x_www_form_urlencoded(),
        }
        .map_err(|e| format!("encoding: {e:#}"))?)
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    resp: Resp,
    /// Other parameters in the form.
    extra: Vec<(String, String)>,
    style: u8,
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    (
        resp(),
        vec((gen::ident().prop_map(|s| format!("x{s}")), gen::text()), 0..3),
        0u8..4,
    )
        .prop_map(|(resp, extra, style)| Plan { resp, extra, style })
        .boxed()
}

pub fn encode(s: &str, style: u8) -> String {
    match style {
        0 => url::form_urlencoded::byte_serialize(s.as_bytes()).collect(),
        1 => s.bytes().map(|b| format!("%{b:02x}")).collect(),
        2 => s.bytes().map(|b| if b == b' ' { "+".to_string() } else { format!("%{b:02X}") }).collect(),
        _ => s
            .bytes()
            .map(|b| if b.is_ascii_alphanumeric() || b"-._~:/{}[],\"".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") })
            .collect(),
    }
}

fn roundtrip(p: &Plan, obs: &mut Obs) -> Check {
    match &p.resp {
        Resp::Plain { token, state } => {
            if token.iter().any(|t| !t.1.is_empty()) {
                obs.nontrivial();
            }
            obs.label(if state.is_some() { "with state" } else { "without state" });
        }
        Resp::Encrypted(_) => {
            obs.nontrivial();
            obs.label("encrypted");
        }
    }
    let form = p.resp.form()?;
    let back = AuthorizationResponse::from_x_www_form_urlencoded(form.as_bytes())
        .map_err(|e| format!("decoding the form: {e:#}"))?;
    p.resp.same(&back).map_err(|f| Fail::from(format!("form round trip: {}", f.msg)))?;
    // an independent decoder reads the same
    let pairs: Vec<(String, String)> = url::form_urlencoded::parse(form.as_bytes()).into_owned().collect();
    let mut got = Map::new();
    for (k, v) in &pairs {
        let v = if k == "vp_token" { serde_json::from_str(v).map_err(|e| format!("vp_token is no JSON: {e}"))? } else { json!(v) };
        ensure!(got.insert(k.clone(), v).is_none(), "parameter {k} twice in the form");
    }
    ensure_eq!(Json::Object(got), p.resp.json(), "form contents");
    // an independent encoder, with other parameters around
    let mut parts: Vec<String> = vec![];
    if let Json::Object(o) = p.resp.json() {
        for (k, v) in o {
            let v = match (&*k, v) {
                ("vp_token", v) if p.style % 2 == 0 => v.to_string(),
                ("vp_token", v) => serde_json::to_string_pretty(&v).unwrap(),
                (_, v) => v.as_str().unwrap().to_string(),
            };
            parts.push(format!("{}={}", encode(&k, 0), encode(&v, p.style)));
        }
    }
    for (i, (k, v)) in p.extra.iter().enumerate() {
        let e = format!("{}={}", encode(k, p.style), encode(v, p.style));
        parts.insert(i.min(parts.len()), e);
    }
    let back = AuthorizationResponse::from_x_www_form_urlencoded(parts.join("&").as_bytes())
        .map_err(|e| format!("decoding a form of another encoder: {e:#}"))?;
    p.resp.same(&back).map_err(|f| Fail::from(format!("form of another encoder: {}", f.msg)))?;
    // JSON
    let j = serde_json::to_value(p.resp.lib()).map_err(|e| e.to_string())?;
    ensure_eq!(j, p.resp.json(), "JSON form");
    let back: AuthorizationResponse = serde_json::from_value(j.clone()).map_err(|e| format!("reading the JSON form: {e}"))?;
    p.resp.same(&back).map_err(|f| Fail::from(format!("JSON round trip: {}", f.msg)))?;
    let back: AuthorizationResponse = serde_json::from_str(&j.to_string()).map_err(|e| format!("reading the JSON text: {e}"))?;
    p.resp.same(&back).map_err(|f| Fail::from(format!("JSON text round trip: {}", f.msg)))?;
    if let Resp::Plain { .. } = p.resp {
        let o: UntypedObject = serde_json::from_value(j).map_err(|e| e.to_string())?;
        let u = UnencodedAuthorizationResponse::try_from(o).map_err(|e| format!("reading the parameters: {e:#}"))?;
        p.resp.same(&AuthorizationResponse::Unencoded(u))?;
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Bad {
    /// The text of the vp_token parameter, if any.
    token: Option<String>,
    state: Option<String>,
    extra: Vec<(String, String)>,
    style: u8,
}

fn bad_strat(_: Tier) -> BoxedStrategy<Bad> {
    let item = prop_oneof![2 => item().prop_map(|i| match i { Item::Text(s) => json!(s), Item::Object(o) => Json::Object(o) }), 1 => gen::json_value()];
    let entry = prop_oneof![4 => vec(item, 0..3).prop_map(Json::from), 1 => gen::json_value()];
    let token = prop_oneof![
        6 => vec((gen::ident(), entry), 0..3).prop_map(|v| Json::Object(v.into_iter().collect::<Map<_, _>>()).to_string()),
        2 => gen::json_value().prop_map(|j| j.to_string()),
        1 => gen::text(),
        1 => select(vec!["", "{", "{\"a\":[\"x\"]} x", "{\"a\":[\"x\"]", "{'a':['x']}", "{\"a\":[\"x\",]}", "eyJ.a.b", "[{\"a\":[\"x\"]}]", "\"{}\""]).prop_map(String::from),
    ];
    (
        option::weighted(0.75, token),
        option::of(gen::text()),
        vec(
            (
                prop_oneof![
                    2 => gen::ident().prop_map(|s| format!("x{s}")),
                    1 => gen::near(&["vp_token", "response", "state"]),
                    1 => select(vec!["jwt", "jwe", "token", "id_token", "code", "error", "presentation_submission", "iss", "verifiable_presentations", "vp_token[]", "vp_token[a]", "encrypted_response", ""]).prop_map(String::from),
                ]
                .prop_filter("a response's own member", |k| k != "vp_token" && k != "response" && k != "state"),
                prop_oneof![1 => gen::text(), 1 => Just("{\"a\":[\"x\"]}".to_string()), 1 => Just("a.b.c.d.e".to_string())],
            ),
            0..3,
        ),
        0u8..4,
    )
        .prop_map(|(token, state, extra, style)| Bad {
            token,
            state,
            extra,
            style,
        })
        .boxed()
}

/// Whether a text is a presentation map.
fn well_formed(t: &str) -> bool {
    let Ok(Json::Object(o)) = serde_json::from_str::<Json>(t) else {
        return false;
    };
    o.values().all(|v| {
        v.as_array()
            .is_some_and(|a| a.iter().all(|i| i.is_string() || i.is_object()))
    })
}

fn reject(p: &Bad, obs: &mut Obs) -> Check {
    let mut parts = vec![];
    if let Some(s) = &p.state {
        parts.push(format!("state={}", encode(s, p.style)));
    }
    if let Some(t) = &p.token {
        parts.push(format!("vp_token={}", encode(t, p.style)));
    }
    for (k, v) in &p.extra {
        parts.push(format!("{}={}", encode(k, p.style), encode(v, p.style)));
    }
    let form = parts.join("&");
    let expect = p.token.as_deref().is_some_and(well_formed);
    if !expect {
        obs.nontrivial();
    }
    obs.label(if expect { "well-formed" } else { "malformed" });
    let got = AuthorizationResponse::from_x_www_form_urlencoded(form.as_bytes());
    ensure_eq!(got.is_ok(), expect, "decoding {form:?}");
    if let Ok(AuthorizationResponse::Unencoded(u)) = &got {
        let want: Json = serde_json::from_str(p.token.as_ref().unwrap()).unwrap();
        ensure_eq!(Json::from(u.vp_token().clone()), want, "presentations");
        ensure_eq!(u.state().map(|s| s.0.clone()), p.state, "state");
    } else {
        ensure!(!expect, "decoded as another kind of response");
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        level: "exploration",
        assumptions: &["form encoding as in the URL standard (reference codec: the url crate)"],
        subs: vec![
            Box::new(SubCheck {
                name: "roundtrip",
                rule: "the response is encrypted or has at least one presentation",
                quick: 20_000,
                thorough: 600_000,
                strat,
                examples: no_examples,
                test: roundtrip,
            }),
            Box::new(SubCheck {
                name: "reject",
                rule: "the form is not a response",
                quick: 20_000,
                thorough: 600_000,
                strat: bad_strat,
                examples: no_examples,
                test: reject,
            }),
        ],
    }
}
