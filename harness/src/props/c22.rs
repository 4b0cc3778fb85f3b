//! C22: credential-format capabilities answer exactly what was declared.
use openid4vp::core::{
    credential_format::{ClaimFormat, ClaimFormatMap, ClaimFormatPayload},
    metadata::parameters::{verifier::VpFormats, wallet::VpFormatsSupported},
};
use proptest::{prelude::*, sample::select};

use crate::gen::{seq, vec};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};

use crate::{ensure, ensure_eq, fail, fw::*, gen};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    map: Map<String, Json>,
    typed: bool,
    ask: Vec<(String, String)>,
    /// format (an index into the map), algorithm or proof type, method
    add: Vec<(u8, bool, String)>,
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    (
        gen::format_map(),
        any::<bool>(),
        vec((gen::format_name(), gen::method_name()), 0..4),
        seq((any::<u8>(), any::<bool>(), gen::method_name()), 0..5),
    )
        .prop_map(|(map, typed, ask, add)| Plan { map, typed, ask, add })
        .boxed()
}

fn texts(j: &Json) -> Option<Vec<String>> {
    j.as_array()?.iter().map(|x| x.as_str().map(String::from)).collect()
}

/// Kind (algorithms or proof types) and list.
fn declared(j: &Json) -> Option<(bool, Vec<String>)> {
    let o = j.as_object()?;
    if o.len() != 1 {
        return None;
    }
    let (k, v) = o.iter().next()?;
    match k.as_str() {
        "alg_values" => Some((true, texts(v)?)),
        "proof_type_values" => Some((false, texts(v)?)),
        _ => None,
    }
}

/// Several members: whether the lists among them count is not claimed.
fn vague(j: &Json) -> bool {
    j.as_object().is_some_and(|o| o.len() > 1 && (o.contains_key("alg_values") || o.contains_key("proof_type_values")))
}

fn lib(j: &Json) -> ClaimFormatPayload {
    match declared(j) {
        Some((true, v)) => ClaimFormatPayload::AlgValues(v),
        Some((false, v)) => ClaimFormatPayload::ProofTypeValues(v),
        None => ClaimFormatPayload::Other(j.clone()),
    }
}

fn answers(m: &ClaimFormatMap, model: &Map<String, Json>, ask: &[(String, String)], obs: &mut Obs) -> Check {
    ensure_eq!(serde_json::to_value(m).map_err(|e| e.to_string())?, Json::Object(model.clone()), "JSON of the map");
    let text = serde_json::to_string(m).map_err(|e| e.to_string())?;
    let back: ClaimFormatMap = serde_json::from_str(&text).map_err(|e| format!("{text}: {e}"))?;
    ensure_eq!(back, *m, "map read back from {text}");
    let (v, w) = (VpFormats(m.clone()), VpFormatsSupported(m.clone()));
    for (vj, what) in [(Json::try_from(v.clone()), "VpFormats"), (Json::try_from(w.clone()), "VpFormatsSupported")] {
        let vj = vj.map_err(|e| format!("{what}: {e:#}"))?;
        ensure_eq!(vj, Json::Object(model.clone()), "JSON of {what}");
        let again = match what {
            "VpFormats" => VpFormats::try_from(vj).map(|x| x.0),
            _ => VpFormatsSupported::try_from(vj).map(|x| x.0),
        };
        ensure_eq!(again.map_err(|e| format!("{e:#}"))?, *m, "{what} read back");
    }
    // every declared pair, every declared method for every other format, and the questions
    let mut pairs: Vec<(String, String)> = ask.to_vec();
    let methods: Vec<String> = model.values().filter_map(declared).flat_map(|(_, l)| l).collect();
    for f in model.keys().map(String::as_str).chain(["jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt"]) {
        for x in &methods {
            pairs.push((f.to_string(), x.clone()));
            pairs.push((f.to_string(), x.to_lowercase()));
            pairs.push((f.to_string(), format!("{x} ")));
        }
        pairs.push((f.to_uppercase(), "ES256".into()));
        pairs.push((f.to_string(), "alg_values".into()));
        pairs.push((f.to_string(), String::new()));
    }
    for (f, x) in &pairs {
        let d = gen::designation(f);
        ensure_eq!(w.is_claim_format_supported(&d), model.contains_key(f), "whether {f:?} is supported by {text}");
        if model.get(f).is_some_and(vague) {
            continue;
        }
        let want = model.get(f).and_then(declared).is_some_and(|(_, l)| l.contains(x));
        ensure_eq!(v.supports_security_method(&d, x), want, "whether {x:?} is supported for {f:?} by {text}");
        obs.label(if want { "supported" } else { "not supported" });
    }
    Ok(())
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let mut model = p.map.clone();
    let read: ClaimFormatMap = serde_json::from_value(Json::Object(model.clone())).map_err(|e| format!("refused {}: {e}", Json::Object(model.clone())))?;
    let made: ClaimFormatMap = model.iter().map(|(k, j)| (gen::designation(k), lib(j))).collect();
    ensure_eq!(read, made, "map read from {}", Json::Object(model.clone()));
    let mut m = if p.typed { made } else { read };
    if !model.is_empty() {
        obs.nontrivial();
    }
    answers(&m, &model, &p.ask, obs)?;
    for (i, alg, x) in &p.add {
        if model.is_empty() {
            break;
        }
        let f = model.keys().nth(*i as usize % model.len()).unwrap().clone();
        let Some(e) = m.get_mut(&gen::designation(&f)) else { fail!("{f:?} is missing") };
        let was = e.clone();
        if *alg {
            e.add_alg(x.clone())
        } else {
            e.add_proof_type(x.clone())
        }
        match declared(&model[&f]) {
            Some((kind, mut l)) if kind == *alg => {
                l.push(x.clone());
                model.insert(f.clone(), json!({ (if kind { "alg_values" } else { "proof_type_values" }): l }));
                obs.label("added");
            }
            _ => {
                ensure_eq!(*e, was, "declaration of another kind");
                obs.label("not added");
            }
        }
        answers(&m, &model, &p.ask, obs)?;
    }
    Ok(())
}

// single declarations with their format
#[derive(Debug, Clone, Serialize, Deserialize)]
enum One {
    Jwt(Vec<String>),
    Ldp(Vec<String>),
    Mdoc(Json),
    SdJwt(Json),
    Other(Json),
}

fn one(_: Tier) -> BoxedStrategy<One> {
    prop_oneof![
        2 => vec(gen::method_name(), 0..4).prop_map(One::Jwt),
        2 => vec(gen::method_name(), 0..4).prop_map(One::Ldp),
        2 => gen::json_value().prop_map(One::Mdoc),
        2 => gen::json_value().prop_map(One::SdJwt),
        3 => (prop_oneof![select(vec!["jwt_vp_json", "ldp_vp", "vc+sd-jwt", "other", "JwtVcJson", "LdpVc", "MsoMDoc"]).prop_map(String::from), gen::text()], gen::json_value()).prop_map(|(k, v)| One::Other(json!({ k: v }))),
        1 => gen::json_value().prop_map(One::Other),
    ]
    .boxed()
}

fn test_one(p: &One, obs: &mut Obs) -> Check {
    let (c, j, name) = match p {
        One::Jwt(v) => (ClaimFormat::JwtVcJson { alg_values_supported: v.clone() }, json!({"jwt_vc_json": {"alg_values_supported": v}}), Some("jwt_vc_json")),
        One::Ldp(v) => (ClaimFormat::LdpVc { proof_type: v.clone() }, json!({"ldp_vc": {"proof_type": v}}), Some("ldp_vc")),
        One::Mdoc(v) => (ClaimFormat::MsoMDoc(v.clone()), json!({ "mso_mdoc": v }), Some("mso_mdoc")),
        One::SdJwt(v) => (ClaimFormat::DcSdJwt(v.clone()), json!({ "dc+sd-jwt": v }), Some("dc+sd-jwt")),
        One::Other(v) => {
            let known = v.as_object().is_some_and(|o| o.keys().any(|k| ["jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt"].contains(&k.as_str())));
            if known {
                return Ok(());
            }
            let name = match v.as_object() {
                Some(o) if o.len() == 1 => o.keys().next().map(String::as_str),
                Some(o) if o.len() > 1 => None,
                _ => Some("other"),
            };
            (ClaimFormat::Other(v.clone()), v.clone(), name)
        }
    };
    obs.nontrivial();
    obs.label(match p {
        One::Other(_) => "unknown format",
        _ => "known format",
    });
    ensure_eq!(serde_json::to_value(&c).map_err(|e| e.to_string())?, j, "JSON");
    let text = serde_json::to_string(&c).map_err(|e| e.to_string())?;
    ensure_eq!(serde_json::from_str::<Json>(&text).map_err(|e| e.to_string())?, j, "JSON text");
    let a: ClaimFormat = serde_json::from_str(&text).map_err(|e| format!("{text}: {e}"))?;
    ensure_eq!(a, c, "declaration read back from text");
    let b: ClaimFormat = serde_json::from_value(j.clone()).map_err(|e| format!("{j}: {e}"))?;
    ensure_eq!(b, c, "declaration read back from JSON");
    let d = c.designation();
    match name {
        Some(n) => {
            ensure_eq!(d.to_string(), n, "format of {j}");
            ensure_eq!(d, gen::designation(n), "format of {j}");
        }
        None => ensure!(j.as_object().unwrap().contains_key(&d.to_string()), "format of {j} is {d}"),
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        level: "exploration",
        assumptions: &["for a format declared with several members at once, whether one of them being a list of methods counts is not judged"],
        subs: vec![
            Box::new(SubCheck {
                name: "map",
                rule: "a format map, questions, and additions; every declared method is also asked for every format, in other spellings; non-trivial: a map that is not empty",
                quick: 12_000,
                thorough: 400_000,
                strat,
                examples: no_examples,
                test,
            }),
            Box::new(SubCheck {
                name: "declaration",
                rule: "one format declaration, known or unknown; non-trivial: all but those of unknown kind that name a known format",
                quick: 24_000,
                thorough: 800_000,
                strat: one,
                examples: no_examples,
                test: test_one,
            }),
        ],
    }
}
