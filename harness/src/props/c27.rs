//! C27: presentation maps keep each presentation under its query, in order.
use openid4vp::core::response::parameters::{VpToken, VpTokenItem};
use proptest::{option, prelude::*, sample::select};

use crate::gen::{seq, vec};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};
use ssi_claims::{
    data_integrity::{AnyDataIntegrity, AnySuite, DataIntegrity},
    vc::{
        v1,
        v2::{self, syntax::SpecializedJsonCredential},
        AnyJsonPresentation,
    },
};
use std::collections::BTreeMap;

use super::c11::{item, lib_item, Item};
use crate::{ensure, ensure_eq, fail, fw::*, gen};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Insert(String, Vec<Item>),
    Get(String),
    /// What is kept under the first query is also presented under the second (once or twice).
    Same(String, String, bool),
    Clone,
    Reread(bool),
    /// Presentations for very many queries.
    Fill(u16, Item),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    start: Option<(String, Vec<Item>)>,
    ops: Vec<Op>,
}

fn id() -> BoxedStrategy<String> {
    prop_oneof![4 => select(vec!["a", "b", "A", "a ", "pid", "mdl", ""]).prop_map(String::from), 1 => gen::ident(), 1 => gen::text()].boxed()
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    let entry = || (id(), vec(item(), 0..4));
    let op = prop_oneof![
        60 => prop_oneof![
        5 => entry().prop_map(|(k, v)| Op::Insert(k, v)),
        2 => id().prop_map(Op::Get),
        2 => (id(), id(), any::<bool>()).prop_map(|(a, b, twice)| Op::Same(a, b, twice)),
        1 => Just(Op::Clone),
        1 => any::<bool>().prop_map(Op::Reread),
        ],
        1 => (gen::many(), item()).prop_map(|(n, i)| Op::Fill(n as u16, i)),
    ];
    (option::of(entry()), seq(op, 0..8)).prop_map(|(start, ops)| Plan { start, ops }).boxed()
}

fn json_of(i: &VpTokenItem) -> Json {
    match i {
        VpTokenItem::String(s) => json!(s),
        VpTokenItem::JsonObject(o) => Json::Object(o.clone()),
    }
}

fn item_json(i: &Item) -> Json {
    match i {
        Item::Text(s) => json!(s),
        Item::Object(o) => Json::Object(o.clone()),
    }
}

fn agrees(t: &VpToken, m: &BTreeMap<String, Vec<Item>>) -> Check {
    ensure_eq!(t.len(), m.len(), "number of queries");
    ensure_eq!(t.is_empty(), m.is_empty(), "emptiness");
    let listed: Vec<(String, Vec<Json>)> = {
        let mut v: Vec<_> = t.iter().map(|(k, v)| (k.clone(), v.iter().map(json_of).collect())).collect();
        v.sort_by(|a: &(String, Vec<Json>), b| a.0.cmp(&b.0));
        v
    };
    let want: Vec<(String, Vec<Json>)> = m.iter().map(|(k, v)| (k.clone(), v.iter().map(item_json).collect())).collect();
    ensure_eq!(listed, want, "iteration");
    for (k, v) in m {
        ensure_eq!(t.get(k), Some(&v.iter().map(lib_item).collect::<Vec<_>>()), "presentations for {k:?}");
    }
    let j: Map<String, Json> = want.into_iter().map(|(k, v)| (k, json!(v))).collect();
    let j = Json::Object(j);
    ensure_eq!(serde_json::to_value(t).map_err(|e| e.to_string())?, j, "JSON");
    ensure_eq!(Json::from(t.clone()), j, "JSON by conversion");
    let text = serde_json::to_string(t).map_err(|e| e.to_string())?;
    ensure_eq!(serde_json::from_str::<Json>(&text).map_err(|e| e.to_string())?, j, "JSON text");
    Ok(())
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let mut m: BTreeMap<String, Vec<Item>> = BTreeMap::new();
    let mut t = match &p.start {
        None => VpToken::default(),
        Some((k, v)) => {
            m.insert(k.clone(), v.clone());
            VpToken::with_credential(k.clone(), v.iter().map(lib_item).collect())
        }
    };
    ensure!(VpToken::new().is_empty() && VpToken::new() == VpToken::default(), "a new map is not empty");
    agrees(&t, &m)?;
    for op in &p.ops {
        match op {
            Op::Insert(k, v) => {
                obs.nontrivial();
                obs.label(if m.insert(k.clone(), v.clone()).is_some() { "replaced" } else { "inserted" });
                t.insert(k.clone(), v.iter().map(lib_item).collect());
            }
            Op::Fill(n, i) => {
                for k in (0..*n).map(|k| format!("fill{k}")) {
                    m.insert(k.clone(), vec![i.clone()]);
                    t.insert(k, vec![lib_item(i)]);
                }
                obs.label("very many");
            }
            Op::Get(k) => {
                let got = t.get(k).map(|v| v.iter().map(json_of).collect::<Vec<_>>());
                let want = m.get(k).map(|v| v.iter().map(item_json).collect::<Vec<_>>());
                obs.label(if want.is_some() { "found" } else { "not found" });
                ensure_eq!(got, want, "presentations for {k:?}");
            }
            Op::Same(a, b, twice) => {
                let mut v = m.get(a).cloned().unwrap_or_else(|| vec![Item::Text(a.clone())]);
                if *twice {
                    v.extend(v.clone());
                    v.truncate(3000);
                }
                obs.nontrivial();
                obs.label("the same presentations");
                m.insert(b.clone(), v.clone());
                t.insert(b.clone(), v.iter().map(lib_item).collect());
            }
            Op::Clone => {
                let c = t.clone();
                ensure_eq!(c, t, "a copy");
                t = c;
            }
            Op::Reread(typed) => {
                let back = if *typed {
                    VpToken::try_from(Json::from(t.clone())).map_err(|e| format!("{e:#}"))?
                } else {
                    serde_json::from_str(&serde_json::to_string(&t).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?
                };
                ensure_eq!(back, t, "the map read back");
                t = back;
            }
        }
        agrees(&t, &m)?;
    }
    Ok(())
}

// JSON
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Doc(Json);

fn docs(_: Tier) -> BoxedStrategy<Doc> {
    let it = prop_oneof![5 => item().prop_map(|i| item_json(&i)), 1 => gen::json_value(), 1 => gen::number()];
    let entry = prop_oneof![8 => vec(it, 0..4).prop_map(Json::from), 1 => gen::json_value()];
    prop_oneof![8 => vec((id(), entry), 0..4).prop_map(|v| Json::Object(v.into_iter().collect())), 1 => gen::json_value()].prop_map(Doc).boxed()
}

fn test_doc(d: &Doc, obs: &mut Obs) -> Check {
    let good = |v: &Json| v.as_array().is_some_and(|a| a.iter().all(|x| x.is_string() || x.is_object()));
    let ok = d.0.as_object().is_some_and(|o| o.values().all(good));
    obs.label(if ok { "accepted" } else { "rejected" });
    if !ok || d.0.as_object().is_some_and(|o| !o.is_empty()) {
        obs.nontrivial();
    }
    let a = VpToken::try_from(d.0.clone());
    let b = serde_json::from_value::<VpToken>(d.0.clone());
    let c = serde_json::from_str::<VpToken>(&d.0.to_string());
    ensure_eq!((a.is_ok(), b.is_ok(), c.is_ok()), (ok, ok, ok), "reading {}", d.0);
    for t in [a.ok(), b.ok(), c.ok()].into_iter().flatten() {
        ensure_eq!(Json::from(t), d.0, "written back");
    }
    // each presentation by itself
    for x in d.0.as_object().into_iter().flat_map(|o| o.values()).filter_map(Json::as_array).flatten() {
        let r = serde_json::from_value::<VpTokenItem>(x.clone());
        ensure_eq!(r.is_ok(), x.is_string() || x.is_object(), "reading the presentation {x}");
        if let Ok(i) = r {
            ensure_eq!(json_of(&i), *x, "the presentation {x} read");
            ensure_eq!(serde_json::to_value(&i).map_err(|e| e.to_string())?, *x, "the presentation {x} written");
        }
        if let Some(s) = x.as_str() {
            ensure_eq!(VpTokenItem::from(s.to_string()), VpTokenItem::String(s.into()), "presentation from text");
        }
    }
    Ok(())
}

// W3C presentations
#[derive(Debug, Clone, Serialize, Deserialize)]
struct W3c {
    kind: u8,
    doc: Map<String, Json>,
}

fn plain_json() -> BoxedStrategy<Json> {
    prop_oneof![3 => gen::text().prop_map(Json::from), 1 => any::<bool>().prop_map(Json::from), 1 => any::<i32>().prop_map(Json::from), 1 => Just(json!(0.5)), 1 => Just(Json::Null)]
        .prop_recursive(2, 8, 3, |x| prop_oneof![vec(x.clone(), 0..3).prop_map(Json::from), vec((gen::text(), x), 0..3).prop_map(|v| Json::Object(v.into_iter().collect()))])
        .boxed()
}

fn uri() -> BoxedStrategy<Json> {
    prop_oneof![gen::http_url(), "[a-z]{1,5}:[a-z0-9:]{1,12}", "[0-9a-f]{8}".prop_map(|s| format!("urn:uuid:{s}-0000-4000-8000-000000000000")), "[a-zA-Z0-9]{5,20}".prop_map(|s| format!("did:key:z{s}"))]
        .prop_filter("ascii", |s| s.is_ascii())
        .prop_map(Json::from)
        .boxed()
}

fn more() -> BoxedStrategy<Map<String, Json>> {
    vec((prop_oneof![3 => "[a-z]{2,8}", 1 => gen::nonempty_text().prop_map(|s| format!("x{s}"))], plain_json()), 0..3)
        .prop_map(|v| {
            let mut m: Map<String, Json> = v.into_iter().collect();
            for k in ["id", "type", "holder", "proof", "verifiableCredential", "@context", "issuer", "name", "description"] {
                m.remove(k);
            }
            m
        })
        .boxed()
}

fn credential(v: u8) -> BoxedStrategy<Json> {
    (uri(), option::of(uri()), more(), uri(), option::of("[a-zA-Z]{3,10}"), any::<bool>())
        .prop_map(move |(issuer, id, extra, sub, ty, many)| {
            let mut subject = extra.clone();
            subject.insert("id".into(), sub);
            subject.insert("givenName".into(), json!("Ada"));
            let mut c = extra;
            let mut types = vec!["VerifiableCredential".to_string()];
            types.extend(ty);
            c.insert("type".into(), json!(types));
            c.insert("issuer".into(), issuer);
            c.extend(id.map(|v| ("id".to_string(), v)));
            c.insert("credentialSubject".into(), if many { json!([subject, {"id": "did:example:2"}]) } else { Json::Object(subject) });
            if v == 1 {
                c.insert("@context".into(), json!(["https://www.w3.org/2018/credentials/v1"]));
                c.insert("issuanceDate".into(), json!("2024-02-03T04:05:06Z"));
            } else {
                c.insert("@context".into(), json!(["https://www.w3.org/ns/credentials/v2"]));
            }
            Json::Object(c)
        })
        .boxed()
}

fn proof() -> BoxedStrategy<Json> {
    (
        select(vec![("DataIntegrityProof", Some("ecdsa-rdfc-2019")), ("DataIntegrityProof", Some("eddsa-rdfc-2022")), ("Ed25519Signature2020", None), ("DataIntegrityProof", Some("unknown-suite"))]),
        uri(),
        option::of(gen::text()),
        option::of("[a-z]{3,9}\\.example"),
        "z[1-9A-HJ-NP-Za-km-z]{20,60}",
        select(vec!["authentication", "assertionMethod"]),
    )
        .prop_map(|((t, suite), vm, challenge, domain, value, purpose)| {
            let mut p = json!({"type": t, "created": "2024-02-03T04:05:06Z", "verificationMethod": vm, "proofPurpose": purpose, "proofValue": value});
            if let Some(s) = suite {
                p["cryptosuite"] = json!(s);
            }
            if let Some(c) = challenge {
                p["challenge"] = json!(c);
            }
            if let Some(d) = domain {
                p["domain"] = json!(d);
            }
            p
        })
        .boxed()
}

fn w3c(_: Tier) -> BoxedStrategy<W3c> {
    (1u8..3)
        .prop_flat_map(|v| {
            (
                0u8..5,
                (option::of(uri()), option::of(uri()), vec(credential(v), 0..3), more(), option::of("[A-Z][a-z]{3,10}")),
                vec(proof(), 0..3),
            )
                .prop_map(move |(kind, (id, holder, creds, extra, ty), proofs)| {
                    let mut d = extra;
                    d.insert("@context".into(), json!([if v == 1 { "https://www.w3.org/2018/credentials/v1" } else { "https://www.w3.org/ns/credentials/v2" }]));
                    let mut types = vec!["VerifiablePresentation".to_string()];
                    types.extend(ty);
                    d.insert("type".into(), json!(types));
                    d.extend(id.map(|x| ("id".to_string(), x)));
                    d.extend(holder.map(|x| ("holder".to_string(), x)));
                    match creds.len() {
                        0 => {}
                        1 => {
                            d.insert("verifiableCredential".into(), creds[0].clone());
                        }
                        _ => {
                            d.insert("verifiableCredential".into(), json!(creds));
                        }
                    }
                    // 0: the version's own type, 1: its variant, 2: any version, 3: any with proofs, 4: any document with proofs
                    let kind = match (kind, v) {
                        (0, 1) => 0,
                        (0, _) => 1,
                        (1, 2) => 5,
                        (1, _) => 2,
                        (k, _) => k,
                    };
                    if kind == 3 || kind == 4 {
                        match proofs.len() {
                            0 => {}
                            1 => {
                                d.insert("proof".into(), proofs[0].clone());
                            }
                            _ => {
                                d.insert("proof".into(), json!(proofs));
                            }
                        }
                    }
                    W3c { kind, doc: d }
                })
        })
        .boxed()
}

fn convert<T: DeserializeOwned + Serialize>(doc: &Json, obs: &mut Obs) -> Check
where
    VpTokenItem: From<T>,
{
    let parsed: T = match serde_json::from_str(&doc.to_string()) {
        Ok(p) => p,
        Err(_) => {
            obs.label("not a presentation to ssi");
            return Ok(());
        }
    };
    obs.nontrivial();
    // what the presentation itself writes, as text
    let text = serde_json::to_string(&parsed).map_err(|e| format!("machinery: {e}"))?;
    let want: Json = serde_json::from_str(&text).map_err(|e| format!("machinery: {e}"))?;
    let got = VpTokenItem::from(parsed);
    ensure!(matches!(got, VpTokenItem::JsonObject(_)), "a presentation became {got:?}");
    ensure_eq!(json_of(&got), want, "the presentation");
    // and after a map's JSON
    let t = VpToken::with_credential("q", vec![got.clone(), got.clone()]);
    let text = serde_json::to_string(&t).map_err(|e| e.to_string())?;
    let raw: Json = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    ensure_eq!(raw, json!({"q": [want, want]}), "JSON of the presentations");
    let back: VpToken = serde_json::from_str(&text).map_err(|e| format!("{text}: {e}"))?;
    let Some(v) = back.get("q") else { fail!("nothing under the query") };
    ensure_eq!(v.iter().map(json_of).collect::<Vec<_>>(), vec![want.clone(), want.clone()], "presentations read back");
    if want == *doc {
        obs.label("verbatim");
    } else {
        obs.label("as ssi writes it");
    }
    Ok(())
}

fn test_w3c(p: &W3c, obs: &mut Obs) -> Check {
    let doc = Json::Object(p.doc.clone());
    match p.kind {
        0 => convert::<v1::syntax::JsonPresentation>(&doc, obs),
        1 => convert::<v2::syntax::JsonPresentation>(&doc, obs),
        5 => convert::<v2::syntax::JsonPresentation<SpecializedJsonCredential<ssi_json_ld::syntax::Object>>>(&doc, obs),
        2 => convert::<AnyJsonPresentation>(&doc, obs),
        3 => convert::<DataIntegrity<AnyJsonPresentation, AnySuite>>(&doc, obs),
        _ => convert::<AnyDataIntegrity>(&doc, obs),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        level: "exploration",
        assumptions: &["what a W3C presentation contains is what the ssi crate writes for it"],
        subs: vec![
            Box::new(SubCheck {
                name: "map",
                rule: "a sequence of insertions, look-ups and JSON round trips; non-trivial: something is inserted",
                quick: 16_000,
                thorough: 600_000,
                strat,
                examples: no_examples,
                test,
            }),
            Box::new(SubCheck {
                name: "json",
                rule: "JSON that is or is nearly a presentation map; non-trivial: refused, or not empty",
                quick: 16_000,
                thorough: 600_000,
                strat: docs,
                examples: no_examples,
                test: test_doc,
            }),
            Box::new(SubCheck {
                name: "w3c",
                rule: "a W3C presentation (1.1 or 2.0, plain, of any version, secured) as an entry; non-trivial: ssi reads it",
                quick: 6_000,
                thorough: 200_000,
                strat: w3c,
                examples: no_examples,
                test: test_w3c,
            }),
        ],
    }
}
