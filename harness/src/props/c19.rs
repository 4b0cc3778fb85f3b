//! C19: key thumbprints identify the key material and nothing else.
use openid4vp::core::iso_18013_7::{compute_jwk_thumbprint, get_encryption_jwk_thumbprint};
use proptest::{option, prelude::*, sample::select};

use crate::gen::vec;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};

use crate::{ensure, ensure_eq, fail, fw::*, gen, kit::*};

const EC: [&str; 3] = ["crv", "x", "y"];
const RSA: [&str; 2] = ["e", "n"];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Key {
    kty: Option<Json>,
    members: Vec<(String, Json)>,
    extra: Vec<(String, Json)>,
    rot: u8,
}

/// Quoted as JSON requires, without anything it does not require.
fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            '\u{8}' => o += "\\b",
            '\u{c}' => o += "\\f",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

impl Key {
    fn get(&self, k: &str) -> Option<&Json> {
        self.members.iter().rev().find(|(n, _)| n == k).map(|(_, v)| v)
    }

    fn text(&self, k: &str) -> Option<&str> {
        self.get(k).and_then(Json::as_str)
    }

    fn json(&self) -> Map<String, Json> {
        let mut all: Vec<(String, Json)> = self.members.clone();
        all.extend(self.kty.clone().map(|k| ("kty".to_string(), k)));
        all.extend(self.extra.iter().filter(|(k, _)| !["kty", "crv", "x", "y", "e", "n"].contains(&k.as_str())).cloned());
        let n = all.len();
        if n > 0 {
            all.rotate_left(self.rot as usize % n);
        }
        all.into_iter().collect()
    }

    fn canonical(&self) -> Option<String> {
        match self.kty.as_ref()?.as_str()? {
            "EC" => Some(format!(
                "{{\"crv\":{},\"kty\":\"EC\",\"x\":{},\"y\":{}}}",
                quote(self.text("crv")?),
                quote(self.text("x")?),
                quote(self.text("y")?)
            )),
            "RSA" => Some(format!("{{\"e\":{},\"kty\":\"RSA\",\"n\":{}}}", quote(self.text("e")?), quote(self.text("n")?))),
            _ => None,
        }
    }
}

fn value() -> BoxedStrategy<Json> {
    prop_oneof![
        10 => "[A-Za-z0-9_-]{20,44}".prop_map(Json::from),
        2 => select(vec!["P-256", "P-384", "secp256k1", "AQAB"]).prop_map(Json::from),
        1 => gen::text().prop_map(Json::from),
        1 => gen::json_scalar(),
    ]
    .boxed()
}

fn curve() -> BoxedStrategy<Json> {
    prop_oneof![
        3 => select(vec!["P-256", "P-384", "P-521", "secp256k1", "Ed25519", "X25519", "Ed448", "X448", "BP-256", "p-256", "P-256K"]).prop_map(Json::from),
        1 => gen::word().prop_map(Json::from),
        3 => value(),
    ]
    .boxed()
}

fn key() -> BoxedStrategy<Key> {
    (
        prop_oneof![
            8 => Just(Some(json!("EC"))),
            6 => Just(Some(json!("RSA"))),
            2 => select(vec!["OKP", "oct", "ec", "rsa", "EC ", "", "AKP", "EC2", "RSA-PSS"]).prop_map(|s| Some(json!(s))),
            1 => (gen::twist(), any::<bool>()).prop_map(|(t, b)| Some(json!(t.apply(if b { "EC" } else { "RSA" })))),
            1 => gen::json_scalar().prop_map(Some),
            1 => Just(None),
        ],
        prop_oneof![
            8 => (curve(), value(), value(), value(), value()).prop_map(|(a, b, c, d, e)| vec![("crv", a), ("x", b), ("y", c), ("e", d), ("n", e)]),
            1 => vec((select(vec!["crv", "x", "y", "e", "n"]), value()), 0..5),
            // all but one of them, or one under another name
            1 => (curve(), value(), value(), value(), value(), 0usize..5).prop_map(|(a, b, c, d, e, i)| { let mut v = vec![("crv", a), ("x", b), ("y", c), ("e", d), ("n", e)]; v.remove(i); v }),
        ],
        vec((prop_oneof![4 => select(vec!["kid", "alg", "use", "d", "x5c", "key_ops", "Crv", "p", "q", "dp", "k", "X", "exp", "Y", "curve", "modulus", "exponent", "N", "pub", "oth", "ext"]).prop_map(String::from), 1 => gen::text(), 1 => gen::extension_name()], prop_oneof![3 => value(), 1 => gen::json_value()]), 0..5),
        any::<u8>(),
        prop_oneof![4 => Just(0u8), 1 => 1u8..7],
    )
        .prop_map(|(kty, members, mut extra, rot, coincidence)| {
            let mut members: Vec<(String, Json)> = members.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
            members.sort_by(|a, b| a.0.cmp(&b.0));
            members.dedup_by(|a, b| a.0 == b.0);
            let of = |m: &Vec<(String, Json)>, k: &str| m.iter().find(|x| x.0 == k).map(|x| x.1.clone());
            // values that coincide
            let (from, to) = match coincidence {
                1 => ("x", "y"),
                2 => ("e", "n"),
                3 => ("x", "n"),
                4 => ("crv", "x"),
                _ => ("", ""),
            };
            if let (Some(v), Some(m)) = (of(&members, from), members.iter_mut().find(|m| m.0 == to)) {
                m.1 = v;
            }
            let mut key = Key { kty, members, extra: vec![], rot };
            if coincidence >= 5 {
                // named by itself, or by a part of it
                let own = key.canonical().filter(|_| coincidence == 5).map(|c| json!(b64u(sha(c))));
                if let Some(v) = own.or(of(&key.members, "x")).or(of(&key.members, "n")) {
                    extra.retain(|e| e.0 != "kid");
                    extra.push(("kid".into(), v));
                }
            }
            key.extra = extra;
            key
        })
        .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    a: Key,
    extra: Vec<(String, Json)>,
    rot: u8,
    which: u8,
    /// How a required member is changed.
    how: u8,
    twist: gen::Twist,
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    (key(), key(), any::<u8>(), 0u8..3, 0u8..9, gen::twist())
        .prop_map(|(a, b, rot, which, how, twist)| Plan { a, extra: b.extra, rot, which, how, twist })
        .boxed()
}

fn thumb(k: &Key) -> Option<Vec<u8>> {
    compute_jwk_thumbprint(&Json::Object(k.json())).ok().map(|t| t.to_vec())
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let want = p.a.canonical().map(sha);
    let got = thumb(&p.a);
    ensure_eq!(got.as_ref().map(|b| hex(b)), want.as_ref().map(|b| hex(b)), "thumbprint of {}", Json::Object(p.a.json()));
    let Some(t) = got else {
        obs.label("refused");
        return Ok(());
    };
    obs.nontrivial();
    obs.label(if p.a.kty == Some(json!("EC")) { "EC" } else { "RSA" });
    // other members and their order do not matter
    let mut b = p.a.clone();
    b.extra = p.extra.clone();
    b.rot = p.rot;
    ensure!(thumb(&b).as_ref() == Some(&t), "other members change the thumbprint: {} and {}", Json::Object(p.a.json()), Json::Object(b.json()));
    // text in another order of members
    let mut txt: Vec<String> = p.a.json().iter().map(|(k, v)| format!("{}:{}", quote(k), v)).collect();
    txt.reverse();
    let j: Json = serde_json::from_str(&format!("{{{}}}", txt.join(" , "))).map_err(|e| format!("machinery: {e}"))?;
    ensure_eq!(compute_jwk_thumbprint(&j).ok().map(|t| t.to_vec()), Some(t.clone()), "thumbprint of {j}");
    // required ones do
    let req: &[&str] = if p.a.kty == Some(json!("EC")) { &EC } else { &RSA };
    let k = req[p.which as usize % req.len()];
    let old = p.a.text(k).unwrap().to_string();
    let new = match p.how {
        0 => format!("{old}A"),
        1 => old.chars().skip(1).collect(),
        2 => format!("{old}="),
        3 => format!("{old}\",\"y\":\"A"),
        4 => old.to_uppercase(),
        5 => format!(" {old}"),
        _ => p.twist.apply(&old),
    };
    if new != old {
        let mut c = p.a.clone();
        c.members.push((k.to_string(), json!(new)));
        c.members.retain(|(n, v)| !(n == k && *v != json!(new)));
        ensure!(thumb(&c).is_some_and(|x| x != t), "changing {k} from {old:?} to {new:?} does not change the thumbprint");
    }
    // removing one, or making it something else than text, is refused
    let mut c = p.a.clone();
    c.members.retain(|(n, _)| n != k);
    ensure!(thumb(&c).is_none(), "a key without {k} has a thumbprint");
    let name = p.twist.apply(k);
    if !["kty", "crv", "x", "y", "e", "n"].contains(&name.as_str()) {
        let mut d = c.clone();
        d.members.push((name.clone(), json!(old)));
        ensure!(thumb(&d).is_none(), "a key whose {k} is called {name:?} has a thumbprint");
    }
    c.members.push((k.into(), json!([old])));
    ensure!(thumb(&c).is_none(), "a key whose {k} is not text has a thumbprint");
    Ok(())
}

// two keys: equal thumbprints exactly for equal material
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Split {
    parts: Vec<String>,
    cut: u8,
    cut2: u8,
}

fn split(_: Tier) -> BoxedStrategy<Split> {
    (vec(prop_oneof!["[A-Za-z0-9_-]{0,4}", Just("\"".to_string()), Just("\\".to_string()), Just(",".to_string()), Just("\",\"y\":\"".to_string()), Just("\",\"kty\":\"EC\",\"x\":\"".to_string())], 2..7), any::<u8>(), any::<u8>())
        .prop_map(|(parts, cut, cut2)| Split { parts, cut, cut2 })
        .boxed()
}

fn test_split(p: &Split, obs: &mut Obs) -> Check {
    // the same text distributed differently over two members
    let n = p.parts.len();
    let at = |c: u8| {
        let i = c as usize % (n + 1);
        (p.parts[..i].concat(), p.parts[i..].concat())
    };
    let strip = |s: String| s.strip_prefix("\",\"y\":\"").map(String::from).unwrap_or(s);
    let ((x1, y1), (x2, y2)) = (at(p.cut), at(p.cut2));
    let (y1, y2) = (strip(y1), strip(y2));
    let t = |x: &str, y: &str| compute_jwk_thumbprint(&json!({"kty": "EC", "crv": "P-256", "x": x, "y": y})).map_err(|e| format!("{e:#}"));
    let (a, b) = (t(&x1, &y1)?, t(&x2, &y2)?);
    let same = (&x1, &y1) == (&x2, &y2);
    if !same {
        obs.nontrivial();
    }
    ensure_eq!(a == b, same, "equal thumbprints for ({x1:?}, {y1:?}) and ({x2:?}, {y2:?})");
    Ok(())
}

fn split_examples() -> Vec<Split> {
    vec![Split { parts: vec!["B".into(), "\",\"y\":\"".into(), "C".into(), "\",\"y\":\"".into(), "D".into()], cut: 1, cut2: 3 }]
}

// the key taken for a request
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Request {
    keys: Vec<(Key, Option<String>)>,
    shape: u8,
    mode: u8,
}

fn request(_: Tier) -> BoxedStrategy<Request> {
    (
        vec((key(), option::of(prop_oneof![4 => Just("enc".to_string()), 3 => Just("sig".to_string()), 1 => select(vec!["ENC", "enc ", "", "encryption"]).prop_map(String::from), 1 => gen::twist().prop_map(|t| t.apply("enc"))])), 0..5),
        prop_oneof![12 => Just(0u8), 1 => 1u8..7],
        0u8..4,
    )
        .prop_map(|(keys, shape, mode)| Request { keys, shape, mode })
        .boxed()
}

fn test_request(p: &Request, obs: &mut Obs) -> Check {
    let keys: Vec<Json> = p
        .keys
        .iter()
        .map(|(k, u)| {
            let mut o = k.json();
            o.remove("use");
            if let Some(u) = u {
                o.insert("use".into(), json!(u));
            }
            Json::Object(o)
        })
        .collect();
    let modes = ["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"];
    let mut r = json!({"client_id": "c", "response_type": "vp_token", "response_mode": modes[p.mode as usize % 4], "nonce": "n"});
    if p.mode % 4 < 2 {
        r["response_uri"] = json!("https://v.example/r");
    }
    match p.shape {
        0 => r["client_metadata"] = json!({"jwks": {"keys": keys}}),
        1 => {}
        2 => r["client_metadata"] = json!({}),
        3 => r["client_metadata"] = json!({"jwks": {}}),
        4 => r["client_metadata"] = json!({"jwks": keys}),
        5 => r["client_metadata"] = json!("x"),
        _ => r["jwks"] = json!({"keys": keys}),
    }
    let request = aro(r).map_err(|e| format!("request refused: {e:#}"))?;
    let got = get_encryption_jwk_thumbprint(&request).map(|t| hex(&t));
    let mut want = None;
    if p.shape == 0 {
        want = p
            .keys
            .iter()
            .filter(|(_, u)| u.as_deref().is_none_or(|u| u == "enc"))
            .find_map(|(k, _)| k.canonical())
            .map(|c| hex(&sha(c)));
    }
    obs.label(if want.is_some() { "a key" } else { "no key" });
    if !p.keys.is_empty() {
        obs.nontrivial();
    }
    if got != want {
        fail!("thumbprint taken for a request: got {got:?}, expected {want:?}, keys {}", Json::Array(keys));
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        level: "exploration",
        assumptions: &["the marking 'use', when present, is text"],
        subs: vec![
            Box::new(SubCheck { name: "thumbprint", rule: "the key has a thumbprint", quick: 24_000, thorough: 600_000, strat, examples: no_examples, test }),
            Box::new(SubCheck { name: "injective", rule: "the two keys differ", quick: 16_000, thorough: 300_000, strat: split, examples: split_examples, test: test_split }),
            Box::new(SubCheck { name: "request", rule: "the request has keys", quick: 16_000, thorough: 300_000, strat: request, examples: no_examples, test: test_request }),
        ],
    }
}
