//! C25: session statuses are totally ordered by progress and survive JSON.
use openid4vp_frontend::{Outcome, Status};
use proptest::{prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};
use std::cmp::Ordering;

use super::rig::{outcome_plan, OutcomePlan};
use crate::{ensure, ensure_eq, fw::*, gen};

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum St {
    ByReference,
    Sent,
    Received,
    Complete(OutcomePlan),
}

impl St {
    fn lib(&self) -> Status {
        match self {
            St::ByReference => Status::SentRequestByReference,
            St::Sent => Status::SentRequest,
            St::Received => Status::ReceivedResponse,
            St::Complete(o) => Status::Complete(o.lib()),
        }
    }

    fn rank(&self) -> u8 {
        match self {
            St::ByReference => 0,
            St::Sent => 1,
            St::Received => 2,
            St::Complete(o) => 3 + outcome_rank(o),
        }
    }

    fn json(&self) -> Json {
        match self {
            St::ByReference => json!("SentRequestByReference"),
            St::Sent => json!("SentRequest"),
            St::Received => json!("ReceivedResponse"),
            St::Complete(o) => json!({ "Complete": outcome_json(o) }),
        }
    }

    fn same(&self, s: &Status) -> bool {
        match (self, s) {
            (St::ByReference, Status::SentRequestByReference) | (St::Sent, Status::SentRequest) | (St::Received, Status::ReceivedResponse) => true,
            (St::Complete(o), Status::Complete(l)) => outcome_same(o, l),
            _ => false,
        }
    }
}

fn outcome_rank(o: &OutcomePlan) -> u8 {
    match o {
        OutcomePlan::Error(_) => 0,
        OutcomePlan::Failure(_) => 1,
        OutcomePlan::Success(_) => 2,
    }
}

fn outcome_json(o: &OutcomePlan) -> Json {
    match o {
        OutcomePlan::Error(s) => json!({"Error": {"cause": s}}),
        OutcomePlan::Failure(s) => json!({"Failure": {"reason": s}}),
        OutcomePlan::Success(j) => json!({"Success": {"info": j}}),
    }
}

fn outcome_same(o: &OutcomePlan, l: &Outcome) -> bool {
    match (o, l) {
        (OutcomePlan::Error(s), Outcome::Error { cause }) => s == cause,
        (OutcomePlan::Failure(s), Outcome::Failure { reason }) => s == reason,
        (OutcomePlan::Success(j), Outcome::Success { info }) => j == info,
        _ => false,
    }
}

fn st() -> BoxedStrategy<St> {
    prop_oneof![1 => Just(St::ByReference), 1 => Just(St::Sent), 1 => Just(St::Received), 4 => outcome_plan().prop_map(St::Complete)].boxed()
}

fn strat(_: Tier) -> BoxedStrategy<(St, St, St)> {
    (st(), st(), st()).boxed()
}

fn pair<T: PartialOrd + std::fmt::Debug>(a: &T, b: &T, x: u8, y: u8) -> Check {
    ensure_eq!(a.partial_cmp(b), Some(x.cmp(&y)), "order of {a:?} and {b:?}");
    ensure_eq!(a == b, x == y, "whether {a:?} equals {b:?}");
    ensure_eq!(a != b, x != y, "whether {a:?} differs from {b:?}");
    ensure_eq!((a < b, a <= b, a > b, a >= b), (x < y, x <= y, x > y, x >= y), "comparisons of {a:?} and {b:?}");
    Ok(())
}

fn test((a, b, c): &(St, St, St), obs: &mut Obs) -> Check {
    let all = [a, b, c];
    for x in all {
        for y in all {
            pair(&x.lib(), &y.lib(), x.rank(), y.rank())?;
            if let (St::Complete(o), St::Complete(q)) = (x, y) {
                pair(&o.lib(), &q.lib(), outcome_rank(o), outcome_rank(q))?;
            }
        }
    }
    let mut l = all.map(|x| x.lib());
    l.sort_by(|x, y| x.partial_cmp(y).unwrap_or(Ordering::Equal));
    ensure!(l[0] <= l[1] && l[1] <= l[2] && l[0] <= l[2], "sorted statuses {l:?}");
    if a.rank() != b.rank() || a != b {
        obs.nontrivial();
    }
    obs.label(match a.rank().cmp(&b.rank()) {
        Ordering::Less => "before",
        Ordering::Equal => "equal",
        Ordering::Greater => "after",
    });
    for x in all {
        let s = x.lib();
        ensure_eq!(serde_json::to_value(&s).map_err(|e| e.to_string())?, x.json(), "JSON of {s:?}");
        let text = serde_json::to_string(&s).map_err(|e| e.to_string())?;
        let back: Status = serde_json::from_str(&text).map_err(|e| format!("{text}: {e}"))?;
        ensure!(x.same(&back), "{text} read back as {back:?}");
        let back: Status = serde_json::from_value(x.json()).map_err(|e| format!("{}: {e}", x.json()))?;
        ensure!(x.same(&back), "{} read as {back:?}", x.json());
        ensure!(x.same(&s.clone()), "a copy of {s:?} differs");
        if let St::Complete(o) = x {
            let l = o.lib();
            ensure_eq!(serde_json::to_value(&l).map_err(|e| e.to_string())?, outcome_json(o), "JSON of {l:?}");
            let back: Outcome = serde_json::from_str(&serde_json::to_string(&l).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            ensure!(outcome_same(o, &back), "{l:?} read back as {back:?}");
        }
    }
    Ok(())
}

// JSON that is no status
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Bad(Json);

fn bad(_: Tier) -> BoxedStrategy<Bad> {
    let name = || select(vec!["SentRequestByReference", "SentRequest", "ReceivedResponse", "Complete", "sent_request", "Sent", "Error", ""]);
    let kind = || select(vec!["Error", "Failure", "Success", "error", "Other", "Complete"]);
    let member = || select(vec!["cause", "reason", "info", "Info", ""]);
    prop_oneof![
        2 => name().prop_map(|s| json!(s)),
        3 => (kind(), member(), gen::json_scalar()).prop_map(|(k, m, v)| json!({"Complete": {k: {m: v}}})),
        2 => (name(), gen::json_value()).prop_map(|(k, v)| json!({ k: v })),
        1 => gen::json_value(),
    ]
    .prop_map(Bad)
    .boxed()
}

fn valid(j: &Json) -> Option<bool> {
    match j {
        Json::String(s) => Some(["SentRequestByReference", "SentRequest", "ReceivedResponse"].contains(&s.as_str())),
        Json::Object(o) if o.len() == 1 => {
            let (k, v) = o.iter().next().unwrap();
            match (k.as_str(), v) {
                ("Complete", Json::Object(c)) if c.len() == 1 => {
                    let (k, v) = c.iter().next().unwrap();
                    // an array in place of the members is not judged
                    if v.is_array() {
                        return None;
                    }
                    Some(match k.as_str() {
                        "Error" => v["cause"].is_string(),
                        "Failure" => v["reason"].is_string(),
                        "Success" => v.get("info").is_some(),
                        _ => false,
                    })
                }
                ("Complete", _) => Some(false),
                // {"SentRequest": null} is another way of writing it
                ("SentRequestByReference" | "SentRequest" | "ReceivedResponse", _) => None,
                _ => Some(false),
            }
        }
        _ => Some(false),
    }
}

fn test_bad(b: &Bad, obs: &mut Obs) -> Check {
    let Some(v) = valid(&b.0) else { return Ok(()) };
    obs.nontrivial();
    let got: Result<Status, _> = serde_json::from_value(b.0.clone());
    obs.label(if v { "a status" } else { "no status" });
    ensure_eq!(got.is_ok(), v, "reading {} as a status", b.0);
    if let Ok(s) = got {
        ensure_eq!(serde_json::to_value(&s).map_err(|e| e.to_string())?, b.0, "written back");
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        level: "exploration",
        assumptions: &[],
        subs: vec![
            Box::new(SubCheck {
                name: "order",
                rule: "three statuses, compared in every pair, and written and read; non-trivial: the first two differ",
                quick: 24_000,
                thorough: 1_000_000,
                strat,
                examples: no_examples,
                test,
            }),
            Box::new(SubCheck {
                name: "reading",
                rule: "JSON close to that of a status; non-trivial: whether it is one is decided by the names alone",
                quick: 16_000,
                thorough: 400_000,
                strat: bad,
                examples: no_examples,
                test: test_bad,
            }),
        ],
    }
}
