//! C17: DCQL queries keep their meaning through JSON.
use openid4vp::core::{
    authorization_request::AuthorizationRequestObject,
    dcql_query::{DcqlCredentialClaimsQueryPath, DcqlQuery},
    object::UntypedObject,
};
use proptest::{prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};

use crate::{
    ensure, ensure_eq,
    fw::*,
    gen::{self, DcqlPlan, PathEl, Val},
};

fn strat(_: Tier) -> BoxedStrategy<DcqlPlan> {
    gen::dcql_plan()
}

/// Compares a library query with the plan through its accessors.
fn same(q: &DcqlQuery, p: &DcqlPlan) -> Check {
    ensure_eq!(q.credentials().len(), p.credentials.len(), "number of credentials");
    for (c, x) in q.credentials().iter().zip(&p.credentials) {
        ensure_eq!(c.id(), x.id, "credential id");
        ensure_eq!(*c.format(), gen::designation(&x.format), "format");
        ensure_eq!(c.format().to_string(), x.format, "format name");
        ensure_eq!(*c.meta(), x.meta, "meta");
        ensure_eq!(c.require_cryptographic_holder_binding_raw(), x.binding, "holder binding");
        ensure_eq!(c.require_cryptographic_holder_binding(), x.binding != Some(false), "holder binding with default");
        ensure_eq!(c.multiple_raw(), x.multiple, "multiple");
        ensure_eq!(c.multiple(), x.multiple == Some(true), "multiple with default");
        ensure_eq!(c.claim_sets().map(|v| v.to_vec()), x.claim_sets, "claim sets");
        let ta: Option<Vec<(String, Vec<String>)>> = c.trusted_authorities().map(|v| {
            v.iter()
                .map(|t| {
                    let name = serde_json::to_value(t.authority_type()).ok();
                    (
                        name.and_then(|n| n.as_str().map(String::from)).unwrap_or_default(),
                        t.values().to_vec(),
                    )
                })
                .collect()
        });
        ensure_eq!(ta, x.authorities, "trusted authorities");
        if let (Some(v), Some(a)) = (c.trusted_authorities(), &x.authorities) {
            for (t, (n, _)) in v.iter().zip(a) {
                ensure_eq!(*t.authority_type(), gen::authority(n), "trusted authority type");
            }
        }
        ensure_eq!(c.claims().is_some(), x.claims.is_some(), "claims present");
        if let (Some(cs), Some(xs)) = (c.claims(), &x.claims) {
            ensure_eq!(cs.len(), xs.len(), "number of claims");
            for (c, x) in cs.iter().zip(xs) {
                ensure_eq!(c.id(), x.id.as_ref(), "claim id");
                ensure_eq!(c.intent_to_retain(), x.intent_to_retain, "intent to retain");
                let path: Vec<PathEl> = c
                    .path()
                    .iter()
                    .map(|p| match p {
                        DcqlCredentialClaimsQueryPath::String(s) => PathEl::S(s.clone()),
                        DcqlCredentialClaimsQueryPath::Null => PathEl::Null,
                        DcqlCredentialClaimsQueryPath::Integer(i) => PathEl::I(*i as u64),
                    })
                    .collect();
                ensure_eq!(path, x.path, "path");
                use openid4vp::core::dcql_query::DcqlCredentialClaimsQueryValue as V;
                let values: Option<Vec<Val>> = c.values().map(|v| {
                    v.iter()
                        .map(|v| match v {
                            V::String(s) => Val::S(s.clone()),
                            V::Integer(i) => Val::I(*i as i64),
                            V::Boolean(b) => Val::B(*b),
                        })
                        .collect()
                });
                ensure_eq!(values, x.values, "values");
                let s = |e: Option<&PathEl>| match e {
                    Some(PathEl::S(s)) => Some(s.clone()),
                    _ => None,
                };
                ensure_eq!(c.namespace().map(String::from), s(x.path.first()), "first path element");
                ensure_eq!(c.element_identifier().map(String::from), s(x.path.get(1)), "second path element");
                let last = x.path.iter().rev().find_map(|e| s(Some(e)));
                ensure_eq!(c.claim_name().map(String::from), last, "claim name");
            }
        }
    }
    ensure_eq!(q.credential_sets().is_some(), p.sets.is_some(), "credential sets present");
    if let (Some(cs), Some(xs)) = (q.credential_sets(), &p.sets) {
        ensure_eq!(cs.len(), xs.len(), "number of credential sets");
        for (c, x) in cs.iter().zip(xs) {
            ensure_eq!(c.options().to_vec(), x.options, "options");
            ensure_eq!(c.required_raw(), x.required, "required");
            ensure_eq!(c.is_required(), x.required != Some(false), "required with default");
        }
    }
    Ok(())
}

fn roundtrip(p: &DcqlPlan, obs: &mut Obs) -> Check {
    if p.credentials.iter().any(|c| c.claims.is_some() || c.authorities.is_some()) {
        obs.nontrivial();
    }
    if p.sets.is_some() {
        obs.label("credential sets");
    }
    let q = p.lib();
    same(&q, p).map_err(|f| Fail::from(format!("query as built: {}", f.msg)))?;
    let expect = p.json();
    let j = serde_json::to_value(&q).map_err(|e| e.to_string())?;
    ensure_eq!(j, expect, "JSON of the query");
    let param: Json = q.clone().into();
    ensure_eq!(param, expect, "JSON of the query as a parameter");
    let text = serde_json::to_string(&q).map_err(|e| e.to_string())?;
    for (how, r) in [
        ("text", serde_json::from_str::<DcqlQuery>(&text).map_err(|e| e.to_string())),
        ("value", serde_json::from_value::<DcqlQuery>(expect.clone()).map_err(|e| e.to_string())),
        ("parameter", DcqlQuery::try_from(expect.clone()).map_err(|e| format!("{e:#}"))),
    ] {
        let back = r.map_err(|e| format!("reading back from JSON {how}: {e}"))?;
        ensure_eq!(back, q, "query read back from JSON {how}");
        same(&back, p).map_err(|f| Fail::from(format!("read back from {how}: {}", f.msg)))?;
    }
    // inside a parameter object and a request object
    let mut o = UntypedObject::default();
    let _ = o.insert(q.clone());
    match o.get::<DcqlQuery>() {
        Some(Ok(x)) => ensure_eq!(x, q, "query read from a parameter object"),
        o => crate::fail!("query not readable from a parameter object: {o:?}"),
    }
    let r: AuthorizationRequestObject = serde_json::from_value(json!({
        "response_type": "vp_token", "nonce": "n", "response_mode": "dc_api", "dcql_query": expect,
    }))
    .map_err(|e| e.to_string())?;
    match r.dcql_query() {
        Some(Ok(x)) => ensure_eq!(x, q, "query read from a request object"),
        o => crate::fail!("query not readable from a request object: {o:?}"),
    }
    // meta may be left out: it reads as empty
    if p.credentials[0].meta.is_empty() {
        let mut j = expect.clone();
        j["credentials"][0].as_object_mut().unwrap().remove("meta");
        let back: DcqlQuery = serde_json::from_value(j).map_err(|e| e.to_string())?;
        ensure_eq!(back, q, "query without meta");
        obs.label("meta left out");
    }
    Ok(())
}

/// A query edited into another one.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct EditPlan {
    from: DcqlPlan,
    to: DcqlPlan,
    /// Whether each member is set or changed in place.
    in_place: Vec<bool>,
}

fn edit_strat(_: Tier) -> BoxedStrategy<EditPlan> {
    (gen::dcql_plan(), gen::dcql_plan(), proptest::collection::vec(any::<bool>(), 1..9))
        .prop_map(|(from, to, in_place)| EditPlan { from, to, in_place })
        .boxed()
}

fn edit(p: &EditPlan, obs: &mut Obs) -> Check {
    let mut n = 0;
    let mut bit = || {
        n += 1;
        p.in_place[n % p.in_place.len()]
    };
    let mut q = p.from.lib();
    let goal = p.to.lib();
    obs.nontrivial();
    let common = p.from.credentials.len().min(p.to.credentials.len());
    let mut creds: Vec<_> = goal.credentials().to_vec();
    for i in 0..common {
        let mut c = q.credentials()[i].clone();
        let x = &p.to.credentials[i];
        let y = x.lib();
        if bit() { *c.id_mut() = x.id.clone() } else { c.set_id(x.id.clone()) }
        if bit() { *c.format_mut() = gen::designation(&x.format) } else { c.set_format(gen::designation(&x.format)) }
        if bit() { *c.meta_mut() = x.meta.clone() } else { c.set_meta(x.meta.clone()) }
        if bit() { *c.claim_sets_mut() = y.claim_sets().cloned() } else { c.set_claim_sets(y.claim_sets().cloned()) }
        c.set_multiple(x.multiple);
        c.set_require_cryptographic_holder_binding(x.binding);
        // the claims, one by one
        let old = c.claims().map(|v| v.to_vec()).unwrap_or_default();
        let claims = x.claims.as_ref().map(|v| {
            gen::nev(
                v.iter()
                    .enumerate()
                    .map(|(k, x)| {
                        let y = x.lib();
                        let Some(mut c) = old.get(k).cloned() else { return y };
                        if bit() { *c.id_mut() = x.id.clone() } else { c.set_id(x.id.clone()) }
                        let path = gen::nev(y.path().to_vec());
                        if bit() { *c.path_mut() = path } else { c.set_path(path) }
                        if bit() { *c.values_mut() = y.values().cloned() } else { c.set_values(y.values().cloned()) }
                        if bit() { *c.intent_to_retain_mut() = x.intent_to_retain } else { c.set_intent_to_retain(x.intent_to_retain) }
                        c
                    })
                    .collect(),
            )
        });
        if bit() { *c.claims_mut() = claims } else { c.set_claims(claims) }
        let old = c.trusted_authorities().map(|v| v.to_vec()).unwrap_or_default();
        let auth = x.authorities.as_ref().map(|v| {
            gen::nev(
                v.iter()
                    .enumerate()
                    .map(|(k, (t, vs))| match old.get(k).cloned() {
                        None => openid4vp::core::dcql_query::TrustedAuthoritiesQuery::new(gen::authority(t), gen::nev(vs.clone())),
                        Some(mut a) => {
                            a.set_authority_type(gen::authority(t));
                            if bit() { *a.values_mut() = gen::nev(vs.clone()) } else { a.set_values(gen::nev(vs.clone())) }
                            a
                        }
                    })
                    .collect(),
            )
        });
        if bit() { *c.trusted_authorities_mut() = auth } else { c.set_trusted_authorities(auth) }
        creds[i] = c;
    }
    if bit() { *q.credentials_mut() = gen::nev(creds) } else { q.set_credentials(gen::nev(creds)) }
    let old = q.credential_sets().map(|v| v.to_vec()).unwrap_or_default();
    let sets = p.to.sets.as_ref().map(|v| {
        gen::nev(
            v.iter()
                .enumerate()
                .map(|(k, x)| {
                    let Some(mut s) = old.get(k).cloned() else { return x.lib() };
                    if bit() { *s.options_mut() = gen::nev(x.options.clone()) } else { s.set_options(gen::nev(x.options.clone())) }
                    if bit() { *s.required_mut() = x.required } else { s.set_required(x.required) }
                    s
                })
                .collect(),
        )
    });
    if bit() { *q.credential_sets_mut() = sets } else { q.set_credential_sets(sets) }
    same(&q, &p.to).map_err(|f| Fail::from(format!("query as edited: {}", f.msg)))?;
    ensure_eq!(serde_json::to_value(&q).map_err(|e| e.to_string())?, p.to.json(), "JSON of the edited query");
    ensure_eq!(q, goal, "edited query");
    Ok(())
}

/// One defect put into a valid document.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Defect {
    Remove,
    Retype(u8),
    Empty,
    EmptyInner,
    /// The member has another name.
    Rename(gen::Twist),
    Named(String),
    /// A member that means nothing beside it.
    Surplus(String, Json),
}

/// The names that mean something in a query.
const NAMES: &[&str] = &[
    "credentials", "credential_sets", "id", "format", "multiple", "meta", "trusted_authorities", "require_cryptographic_holder_binding", "claim_sets", "claims", "path", "values", "intent_to_retain", "type", "options", "required",
];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct BadPlan {
    base: DcqlPlan,
    /// Which of the mutable places of the document.
    place: u16,
    defect: Defect,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Str,
    Bool,
    Obj,
    /// A list that must not be empty.
    List,
    Path,
    Values,
    /// A list of lists of strings that must not be empty.
    Lists,
}

/// Every typed place of the document: pointer, kind, required.
fn places(p: &DcqlPlan) -> Vec<(String, Kind, bool)> {
    let mut v = vec![("/credentials".to_string(), Kind::List, true)];
    for (i, c) in p.credentials.iter().enumerate() {
        let b = format!("/credentials/{i}");
        v.push((format!("{b}/id"), Kind::Str, true));
        v.push((format!("{b}/format"), Kind::Str, true));
        v.push((format!("{b}/meta"), Kind::Obj, false));
        if let Some(cl) = &c.claims {
            v.push((format!("{b}/claims"), Kind::List, false));
            for (k, x) in cl.iter().enumerate() {
                v.push((format!("{b}/claims/{k}/path"), Kind::Path, true));
                if x.id.is_some() {
                    v.push((format!("{b}/claims/{k}/id"), Kind::Str, false));
                }
                if x.values.is_some() {
                    v.push((format!("{b}/claims/{k}/values"), Kind::Values, false));
                }
                if x.intent_to_retain.is_some() {
                    v.push((format!("{b}/claims/{k}/intent_to_retain"), Kind::Bool, false));
                }
            }
        }
        if c.claim_sets.is_some() {
            v.push((format!("{b}/claim_sets"), Kind::Lists, false));
        }
        if let Some(a) = &c.authorities {
            v.push((format!("{b}/trusted_authorities"), Kind::List, false));
            for k in 0..a.len() {
                v.push((format!("{b}/trusted_authorities/{k}/type"), Kind::Str, true));
                v.push((format!("{b}/trusted_authorities/{k}/values"), Kind::List, true));
            }
        }
        if c.binding.is_some() {
            v.push((format!("{b}/require_cryptographic_holder_binding"), Kind::Bool, false));
        }
        if c.multiple.is_some() {
            v.push((format!("{b}/multiple"), Kind::Bool, false));
        }
    }
    if let Some(s) = &p.sets {
        v.push(("/credential_sets".into(), Kind::List, false));
        for (k, x) in s.iter().enumerate() {
            v.push((format!("/credential_sets/{k}/options"), Kind::Lists, true));
            if x.required.is_some() {
                v.push((format!("/credential_sets/{k}/required"), Kind::Bool, false));
            }
        }
    }
    v
}

fn bad_strat(_: Tier) -> BoxedStrategy<BadPlan> {
    (
        gen::dcql_plan(),
        any::<u16>(),
        prop_oneof![
            Just(Defect::Remove),
            (0u8..6).prop_map(Defect::Retype),
            Just(Defect::Empty),
            Just(Defect::EmptyInner),
            gen::twist().prop_map(Defect::Rename),
            prop_oneof![gen::word(), gen::extension_name(), select(vec!["authority_type", "credential_ids", "paths", "value", "intentToRetain", "requireCryptographicHolderBinding", "holder_binding", "purpose", "name", "credentialSets", "claimSets", "optional"]).prop_map(String::from)].prop_map(Defect::Named),
            (prop_oneof![gen::word(), gen::extension_name(), gen::ident()], gen::json_value()).prop_map(|(k, v)| Defect::Surplus(k, v)),
        ],
    )
        .prop_map(|(base, place, defect)| BadPlan { base, place, defect })
        .boxed()
}

fn bad(p: &BadPlan, obs: &mut Obs) -> Check {
    let places = places(&p.base);
    let (ptr, kind, required) = places[p.place as usize % places.len()].clone();
    let mut j = p.base.json();
    let (parent, member) = ptr.rsplit_once('/').unwrap();
    let holder = j.pointer_mut(parent).unwrap().as_object_mut().unwrap();
    // is the result a valid document?
    let mut means = None;
    let valid = match &p.defect {
        d @ (Defect::Rename(_) | Defect::Named(_)) => {
            let name = match d {
                Defect::Rename(t) => t.apply(member),
                Defect::Named(s) => s.clone(),
                _ => unreachable!(),
            };
            if NAMES.contains(&name.as_str()) {
                return Ok(());
            }
            let value = holder.remove(member).unwrap();
            let mut without = p.base.json();
            without.pointer_mut(parent).unwrap().as_object_mut().unwrap().remove(member);
            means = Some(without);
            holder.insert(name, value);
            !required
        }
        Defect::Surplus(name, value) => {
            if NAMES.contains(&name.as_str()) {
                return Ok(());
            }
            holder.insert(name.clone(), value.clone());
            means = Some(p.base.json());
            true
        }
        Defect::Remove => {
            holder.remove(member);
            !required
        }
        Defect::Retype(n) => {
            let n = *n;
            let v = match n {
                0 => Json::Null,
                1 => json!(7),
                2 => json!("text"),
                3 => json!(true),
                4 => json!({"a": 1}),
                _ => json!([[1.5]]),
            };
            let ok = match (kind, n) {
                // null reads as absent for optional members, except `meta`, which has no null form
                (Kind::Obj, 0) => return Ok(()),
                (_, 0) => !required,
                (Kind::Str, 2) | (Kind::Bool, 3) | (Kind::Obj, 4) => true,
                _ => false,
            };
            holder.insert(member.to_string(), v);
            ok
        }
        Defect::Empty => match kind {
            Kind::List | Kind::Path | Kind::Values | Kind::Lists => {
                holder.insert(member.to_string(), json!([]));
                false
            }
            _ => return Ok(()),
        },
        Defect::EmptyInner => match kind {
            // an element of the wrong type
            Kind::Path => {
                holder.insert(member.to_string(), json!(["a", -1]));
                false
            }
            Kind::Values => {
                holder.insert(member.to_string(), json!(["a", {"b": 1}]));
                false
            }
            Kind::Lists => {
                holder.insert(member.to_string(), json!([["a"], "b"]));
                false
            }
            Kind::List => {
                holder.insert(member.to_string(), json!([17]));
                false
            }
            _ => return Ok(()),
        },
    };
    obs.nontrivial();
    obs.label(if valid { "still valid" } else { "invalid" });
    let text = j.to_string();
    let got = serde_json::from_str::<DcqlQuery>(&text);
    if valid {
        let got = match got {
            Ok(q) => q,
            Err(e) => crate::fail!("a valid query was rejected ({ptr} {:?}): {e}", p.defect),
        };
        if let Some(m) = means {
            let want: DcqlQuery = serde_json::from_value(m).map_err(|e| format!("a valid query was rejected ({ptr} {:?}): {e}", p.defect))?;
            ensure_eq!(got, want, "query with a member without meaning ({ptr} {:?})", p.defect);
            ensure_eq!(serde_json::to_value(&got).unwrap(), serde_json::to_value(&want).unwrap(), "JSON of a query with a member without meaning ({ptr} {:?})", p.defect);
        }
    } else {
        ensure!(
            got.is_err() && DcqlQuery::try_from(j).is_err(),
            "an invalid query was accepted: {ptr} {:?} {kind:?}",
            p.defect
        );
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        level: "exploration",
        assumptions: &["JSON numbers in metadata are integers or exactly representable halves"],
        subs: vec![
            Box::new(SubCheck {
                name: "roundtrip",
                rule: "a query built through the API, compared with an independent JSON writer and read back; non-trivial: has claims or trusted authorities",
                quick: 24_000,
                thorough: 600_000,
                strat,
                examples: no_examples,
                test: roundtrip,
            }),
            Box::new(SubCheck {
                name: "edits",
                rule: "every case: a query edited, member by member, into another one",
                quick: 10_000,
                thorough: 300_000,
                strat: edit_strat,
                examples: no_examples,
                test: edit,
            }),
            Box::new(SubCheck {
                name: "defects",
                rule: "a valid JSON query in which one typed place is removed, retyped, emptied or renamed, or has an unknown member beside it; non-trivial: the change applies to that place",
                quick: 24_000,
                thorough: 600_000,
                strat: bad_strat,
                examples: no_examples,
                test: bad,
            }),
        ],
    }
}
