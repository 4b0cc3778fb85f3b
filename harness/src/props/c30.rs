//! C30: a list declared non-empty is never empty.
use openid4vp::utils::NonEmptyVec;
use proptest::prelude::*;

use crate::gen::vec;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};

use crate::{ensure, ensure_eq, fw::*, gen};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Source {
    One(Json),
    List(Vec<Json>),
    Maybe(Vec<Json>),
    FromJson(Vec<Json>),
    Default,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    source: Source,
    push: Vec<Json>,
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    let list = || prop_oneof![12 => vec(gen::json_value(), 0..6), 1 => (gen::size(), any::<u8>()).prop_map(|(n, k)| (0..n % 20_000).map(|i| json!(i + k as usize)).collect::<Vec<_>>())];
    (
        prop_oneof![
            2 => gen::json_value().prop_map(Source::One),
            3 => list().prop_map(Source::List),
            3 => list().prop_map(Source::Maybe),
            3 => list().prop_map(Source::FromJson),
            1 => Just(Source::Default),
        ],
        vec(gen::json_value(), 0..4),
    )
        .prop_map(|(source, push)| Plan { source, push })
        .boxed()
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let (made, given): (Option<NonEmptyVec<Json>>, Option<Vec<Json>>) = match &p.source {
        Source::One(j) => (Some(NonEmptyVec::new(j.clone())), Some(vec![j.clone()])),
        Source::List(v) => (NonEmptyVec::try_from(v.clone()).ok(), Some(v.clone())),
        Source::Maybe(v) => (NonEmptyVec::maybe_new(v.clone()), Some(v.clone())),
        Source::FromJson(v) => (serde_json::from_value(json!(v)).ok(), Some(v.clone())),
        Source::Default => (Some(NonEmptyVec::default()), None),
    };
    if given.as_ref().is_some_and(|v| v.is_empty()) {
        obs.nontrivial();
        obs.label("empty source");
        ensure!(made.is_none(), "an empty source was accepted");
        return Ok(());
    }
    let Some(mut v) = made else {
        crate::fail!("a non-empty source was refused");
    };
    ensure!(!v.is_empty(), "the list is empty");
    let mut expect = match given {
        Some(g) => g,
        None => v.iter().cloned().collect(),
    };
    if expect.len() + p.push.len() > 1 {
        obs.nontrivial();
    }
    for x in &p.push {
        v.push(x.clone());
        expect.push(x.clone());
        ensure_eq!(v.as_ref().to_vec(), expect, "contents after adding");
    }
    ensure_eq!(v.len(), expect.len(), "length");
    ensure_eq!(v.first(), expect.first(), "first");
    ensure_eq!(v.last(), expect.last(), "last");
    ensure_eq!((&v).into_iter().cloned().collect::<Vec<_>>(), expect, "iteration by reference");
    ensure_eq!(v.clone().into_iter().collect::<Vec<_>>(), expect, "iteration by value");
    ensure_eq!(v.clone().into_inner(), expect, "inner list");
    ensure_eq!(Vec::from(v.clone()), expect, "conversion to a list");
    let j = serde_json::to_value(&v).map_err(|e| e.to_string())?;
    ensure_eq!(j, json!(expect), "JSON form");
    let text = serde_json::to_string(&v).map_err(|e| e.to_string())?;
    let back: NonEmptyVec<Json> = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    ensure_eq!(back, v, "read back from JSON");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C30",
        level: "exploration",
        assumptions: &[],
        subs: vec![Box::new(SubCheck {
            name: "nonempty",
            rule: "a source (element, list, JSON array, default) and elements added; non-trivial: an empty source, or more than one element in the end",
            quick: 40_000,
            thorough: 1_500_000,
            strat,
            examples: no_examples,
            test,
        })],
    }
}
