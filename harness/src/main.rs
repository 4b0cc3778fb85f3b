//! vp-check <ID> [--tier quick|thorough] [--seed N] [--only SUB] [--scale F]
//! vp-check --replay FILE
#[cfg_attr(feature = "jwe", allow(dead_code))]
mod dict;
#[cfg_attr(feature = "jwe", allow(dead_code))]
mod fw;
#[cfg_attr(feature = "jwe", allow(dead_code))]
mod gen;
#[cfg_attr(feature = "jwe", allow(dead_code))]
mod kit;
#[cfg_attr(feature = "jwe", path = "../../harness-jwe/src/props.rs")]
mod props;

use std::{collections::HashSet, path::PathBuf, time::{Duration, Instant}};

use fw::{Ctx, Tier};
use serde_json::{json, Value as Json};

/// Whether the members of a plan of this sub-check are independent of one another, so that plans can
/// be mixed to histories of similar cases.
fn mixes(_id: &str, _name: &str) -> bool {
    true
}

fn root() -> PathBuf {
    std::env::var("VP_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// Signatures of the known findings of one property: lines `finding: property=<ID> sig=<sig> ...`.
fn known(id: &str) -> HashSet<String> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter(|l| l.split_whitespace().any(|w| w == format!("property={id}")))
        .filter_map(|l| {
            l.split_whitespace()
                .find_map(|w| w.strip_prefix("sig=").map(String::from))
        })
        .collect()
}

fn replay(file: &str) -> i32 {
    let Some(j) = std::fs::read(file).ok().and_then(|b| serde_json::from_slice::<Json>(&b).ok()) else {
        eprintln!("replay file not understood: {file}");
        return 2;
    };
    let id = j["property"].as_str().expect("property");
    let sub = j["check"].as_str().expect("check");
    let prop = props::find(id).expect("unknown property");
    let s = prop.subs.iter().find(|s| s.name() == sub).expect("check");
    match s.replay(j["plan"].clone()) {
        Ok(Ok(())) => {
            println!("replay: property={id} check={sub}: holds");
            0
        }
        Ok(Err(f)) => {
            println!("replay: property={id} check={sub}: FAILS: {}", f.msg);
            1
        }
        Err(e) => {
            eprintln!("replay file not understood: {e}");
            2
        }
    }
}

/// How long one case may run; they take milliseconds.
const CASE_LIMIT: Duration = Duration::from_secs(60);
/// Exit status of a child one of whose cases takes longer.
const STUCK: i32 = 42;

/// Runs the check in a child process. When that does not survive (an abort such as a stack
/// overflow, or a case that never ends), runs it again, recording each case before it is run, to
/// find the case.
fn supervise(id: &str, tier: Tier, seed: u64, args: &[String]) -> i32 {
    use std::process::Command;
    let exe = std::env::current_exe().expect("executable");
    let first = Command::new(&exe).args(args).arg("--child").status().expect("child");
    match first.code() {
        Some(c) if c != STUCK => return c,
        _ => {}
    }
    println!("{id}: the check did not survive ({first}); looking for the case");
    let dir = root().join("build").join(format!("trace-{id}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("trace folder");
    let second = Command::new(&exe).args(args).args(["--child", "--trace"]).arg(&dir).status().expect("child");
    let mut running = vec![];
    for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
        let p = e.path();
        let c = Command::new(&exe).arg("--replay").arg(&p).stdout(std::process::Stdio::null()).spawn().expect("child");
        running.push((p, c));
    }
    let t = Instant::now();
    let mut found = None;
    for (p, mut c) in running {
        let status = loop {
            match c.try_wait() {
                Ok(Some(s)) => break s.code(),
                _ if t.elapsed() > CASE_LIMIT => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                _ => std::thread::sleep(Duration::from_millis(50)),
            }
        };
        if status.is_none() || status == Some(1) {
            found.get_or_insert(p);
        }
    }
    let Some(p) = found else {
        let _ = std::fs::remove_dir_all(&dir);
        eprintln!("error of the check: no single case explains it (second run: {second})");
        return 2;
    };
    let j: Json = std::fs::read(&p).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Json::Null);
    let replays = root().join("replays");
    let _ = std::fs::create_dir_all(&replays);
    let path = replays.join(format!("{id}-{}-{seed}.json", j["check"].as_str().unwrap_or("crash")));
    std::fs::write(&path, serde_json::to_vec_pretty(&j).unwrap()).expect("replay file");
    let _ = std::fs::remove_dir_all(&dir);
    let ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the case that the process did not survive", "samples": [j["plan"]]},
        "assumptions": [],
        "wall_s": t.elapsed().as_secs_f64(),
        "violations": 1,
    });
    let _ = std::fs::create_dir_all(root().join("evidence"));
    let _ = std::fs::write(root().join("evidence").join(format!("{id}.json")), serde_json::to_vec_pretty(&ev).unwrap());
    println!("{id}: the process did not survive this case: {}", fw::short(&j["plan"].to_string()));
    println!("VIOLATION property={id} replay={}", path.display());
    1
}

fn main() {
    fw::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1))
            .cloned()
    };
    if let Some(f) = opt("--replay") {
        std::process::exit(replay(&f));
    }
    // the dictionary of the sources in a folder; the one that the checks use
    if let Some(d) = opt("--scan") {
        println!("{}", serde_json::to_string_pretty(&dict::scan(&PathBuf::from(d))).unwrap());
        return;
    }
    if args.iter().any(|a| a == "--words") {
        let d = dict::dict();
        println!("new: {:?}\nforeign: {:?}\nsizes: {:?}\nothers: {}", d.new, d.foreign, d.sizes, d.old.len());
        return;
    }
    let id = args.first().cloned().unwrap_or_default();
    let Some(prop) = props::find(&id) else {
        eprintln!("unknown property '{id}'; known: {:?}", props::ids());
        std::process::exit(2);
    };
    let tier = match opt("--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .as_deref()
    {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = opt("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let child = args.iter().any(|a| a == "--child");
    let scale: f64 = opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = opt("--only");
    let ctx = Ctx {
        id: prop.id,
        tier,
        seed,
        known: known(prop.id),
        scale,
    };

    if !child {
        std::process::exit(supervise(prop.id, tier, seed, &args));
    }
    if let Some(d) = opt("--trace") {
        let _ = fw::TRACE.set(PathBuf::from(d));
    }
    // Watchdog: running out of time is an error of the check, never a verdict; a single case that
    // does not end is looked into by the parent.
    let limit = if tier == Tier::Quick { 780 } else { 6 * 3600 };
    std::thread::spawn(move || {
        let t = Instant::now();
        while t.elapsed().as_secs() < limit {
            std::thread::sleep(Duration::from_millis(500));
            if fw::longest_case() > CASE_LIMIT {
                std::process::exit(STUCK);
            }
        }
        eprintln!("watchdog: no verdict after {limit} s");
        std::process::exit(3);
    });

    let _ = fw::now_ms();
    let t0 = Instant::now();
    let mut evaluations = 0u64;
    let mut nontrivial = 0u64;
    let mut rules = vec![];
    let mut samples = vec![];
    let mut per = serde_json::Map::new();
    let mut violation: Option<(String, fw::Violation)> = None;
    let mut error = None;
    let mut known_seen = vec![];
    for s in &prop.subs {
        if only.as_deref().is_some_and(|o| o != s.name()) {
            continue;
        }
        let t = Instant::now();
        let o = s.run(&ctx);
        evaluations += o.stats.evaluations;
        nontrivial += o.stats.nontrivial.len() as u64;
        rules.push(format!("{}: {}", s.name(), s.rule()));
        samples.extend(o.stats.samples.into_iter().take(2));
        per.insert(
            s.name().into(),
            json!({
                "cases": o.stats.cases,
                "evaluations": o.stats.evaluations,
                "distinct_nontrivial": o.stats.nontrivial.len(),
                "classes": o.stats.labels,
                "wall_s": t.elapsed().as_secs_f64(),
            }),
        );
        known_seen.extend(o.stats.known.into_iter().map(|(k, v)| (k.to_string(), v)));
        if let Some(e) = o.error {
            error.get_or_insert(format!("{}: {e}", s.name()));
        }
        if let Some(v) = o.violation {
            violation = Some((s.name().to_string(), v));
            break;
        }
    }
    let evidence = json!({
        "property": prop.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": prop.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": rules.join(" | "),
            "samples": samples,
            "checks": per,
            "stopped_by_the_clock": fw::STOPPED.load(std::sync::atomic::Ordering::Relaxed),
            "known_findings_seen": known_seen.iter().map(|(k, _)| k).collect::<Vec<_>>(),
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violation.is_some() as u32,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", prop.id)),
        serde_json::to_vec_pretty(&evidence).unwrap(),
    )
    .expect("evidence file");

    for (sig, msg) in &known_seen {
        println!("KNOWN-FINDING: property={} {sig}: {msg}", prop.id);
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {:.1} s",
        prop.id,
        evaluations,
        nontrivial,
        t0.elapsed().as_secs_f64()
    );
    if let Some((sub, v)) = violation {
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.json", prop.id, sub, seed));
        std::fs::write(
            &path,
            serde_json::to_vec_pretty(
                &json!({"property": prop.id, "check": sub, "message": v.msg, "plan": v.plan}),
            )
            .unwrap(),
        )
        .expect("replay file");
        println!("{}/{}: {}", prop.id, sub, fw::short(&v.msg));
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        std::process::exit(1);
    }
    if let Some(e) = error {
        eprintln!("error of the check: {e}");
        std::process::exit(2);
    }
}
