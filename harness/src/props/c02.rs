//! C02: DID client requests are accepted only when genuinely signed by that DID.
use openid4vp::{
    core::authorization_request::{
        verification::did::verify_with_resolver, AuthorizationRequest, RequestIndirection,
    },
    wallet::Wallet as _,
};
use proptest::{option, prelude::*, sample::select};

use crate::gen::vec;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};

use super::tamper::*;
use crate::{ensure, ensure_eq, fw::*, gen, kit::*, run};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Kid {
    Good,
    /// The DID part is another one.
    Other(String),
    /// Derived from the DID: 0 longer, 1 shorter, 2 upper case, 3 with the client id prefix,
    /// 4 empty, 5 with a path, 6 with a query, 7 percent-encoded colon
    Near(u8),
    NoFragment,
    Missing,
    NotText(Json),
    /// The DID part, or the whole, with a near miss of it.
    Twist(gen::Twist, bool),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Cid {
    Prefixed,
    Bare,
    OtherDid(String),
    OtherPrefix(String),
    Near(u8),
    None,
    Twist(gen::Twist, bool),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Trust {
    All,
    /// Names before and after the DID itself.
    With(Vec<String>, Vec<String>),
    Without(Vec<String>),
    /// Near misses of the DID only (see [near]) or the key identifier.
    Near(Vec<u8>),
    Twist(Vec<gen::Twist>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    did: String,
    fragment: String,
    kid: Kid,
    cid: Cid,
    trust: Trust,
    alg: Option<Json>,
    wallet_algs: Option<Vec<String>>,
    /// The key that signs, and the key the resolver gives for the key identifier (None: unknown).
    sign: u8,
    resolved: Option<u8>,
    /// Further entries of the resolver: 0 the bare DID, 1 another fragment, 2 an unrelated DID,
    /// 3 the fragment alone, 4 the client identifier.
    decoys: Vec<(u8, u8)>,
    tamper: Tamper,
    typ: bool,
    extra_header: u8,
    via_wallet: bool,
    nonce: String,
    claims: Map<String, Json>,
    #[serde(default)]
    echoes: Vec<Echo>,
    /// Similar requests that were verified before (see [similar]).
    #[serde(default)]
    before: Vec<u8>,
    /// Further members of the keys the resolver gives.
    #[serde(default)]
    key_says: Map<String, Json>,
}

fn did() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "did:web:[a-z]{1,8}\\.example(:[a-z]{1,4}){0,2}",
        2 => "did:key:z6Mk[1-9A-HJ-NP-Za-km-z]{4,12}",
        1 => "did:[a-z]{1,5}:[a-zA-Z0-9._%-]{1,12}",
        1 => Just("did:web:localhost%3A8080".to_string()),
        1 => "[a-z]{1,8}",
        1 => (gen::word(), "[a-z0-9]{0,8}").prop_map(|(w, d)| format!("{w}{d}")),
        1 => ("did:web:[a-z]{1,8}", gen::word()).prop_map(|(d, w)| format!("{d}{w}")),
        1 => "did:web:[a-z]{100,300}",
    ]
    .boxed()
}

/// What a key says of itself.
fn key_says() -> BoxedStrategy<Map<String, Json>> {
    let said = prop_oneof![
        4 => select(vec!["ES256", "ES384", "ES256K", "EdDSA", "RS256", "none"]).prop_map(|a| ("alg", json!(a))),
        2 => select(vec!["sig", "enc"]).prop_map(|u| ("use", json!(u))),
        1 => select(vec![json!(["verify"]), json!(["encrypt"]), json!([])]).prop_map(|o| ("key_ops", o)),
        2 => prop_oneof![1 => did(), 1 => (did(), "[a-z]{1,3}").prop_map(|(d, f)| format!("{d}#{f}")), 1 => gen::text()].prop_map(|k| ("kid", json!(k))),
    ];
    prop_oneof![4 => Just(Map::new()), 1 => vec(said, 1..3).prop_map(|v| v.into_iter().map(|(k, j)| (k.to_string(), j)).collect())].boxed()
}

fn near(d: &str, k: u8) -> String {
    match k {
        0 => format!("{d}x"),
        1 => {
            let mut s = d.to_string();
            s.pop();
            s
        }
        2 => d.to_uppercase(),
        3 => format!("decentralized_identifier:{d}"),
        4 => String::new(),
        5 => format!("{d}/p"),
        6 => format!("{d}?q=1"),
        _ => d.replacen(':', "%3A", 1),
    }
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    let ids = (
        did(),
        prop_oneof![12 => "[a-zA-Z0-9_-]{1,10}", 1 => Just(String::new()), 1 => gen::text().prop_map(|t| t.replace('#', "")), 1 => "[a-z0-9]{60,200}"],
        prop_oneof![
            16 => Just(Kid::Good),
            2 => did().prop_map(Kid::Other),
            3 => (0u8..8).prop_map(Kid::Near),
            1 => Just(Kid::NoFragment),
            1 => Just(Kid::Missing),
            1 => select(vec![json!(null), json!(1), json!(["did:x#k"])]).prop_map(Kid::NotText),
            2 => (gen::twist(), any::<bool>()).prop_map(|(t, w)| Kid::Twist(t, w)),
        ],
        prop_oneof![
            12 => Just(Cid::Prefixed),
            4 => Just(Cid::Bare),
            1 => did().prop_map(Cid::OtherDid),
            1 => select(vec!["x509_hash", "did", "decentralized_identifie", "Decentralized_identifier", ""]).prop_map(|s| Cid::OtherPrefix(s.into())),
            2 => (0u8..8).prop_map(Cid::Near),
            1 => Just(Cid::None),
            2 => (gen::twist(), any::<bool>()).prop_map(|(t, w)| Cid::Twist(t, w)),
        ],
        prop_oneof![
            6 => Just(Trust::All),
            6 => (vec(did(), 0..3), vec(did(), 0..2)).prop_map(|(a, b)| Trust::With(a, b)),
            1 => vec(did(), 0..3).prop_map(Trust::Without),
            1 => vec(0u8..8, 1..4).prop_map(Trust::Near),
            2 => vec(gen::twist(), 1..4).prop_map(Trust::Twist),
        ],
    );
    let any_key = || prop_oneof![8 => 0u8..4, 1 => Just(SECP256K1), 1 => Just(ED25519)];
    let keys = (
        any_key(),
        prop_oneof![14 => Just(None), 2 => any_key().prop_map(|k| Some(Some(k))), 1 => Just(Some(None))],
        vec((0u8..5, any_key()), 0..4),
    );
    (
        ids,
        keys,
        (alg_header(), wallet_algs(), prop::bool::weighted(0.9), prop::bool::weighted(0.7), focus()),
        tamper(),
        (any::<bool>(), extra_header(), option::weighted(0.4, Just(()))),
        ("[a-z]{1,4}", (claims(), echoes(), key_says()), history()),
    )
        .prop_map(|((did, fragment, kid, cid, trust), (sign, res, decoys), (mut alg, mut wallet_algs, natural, listed, focus), tamper, (typ, extra_header, w), (nonce, (claims, echoes, key_says), before))| {
            // another algorithm for keys of another kind
            let other = key_alg(sign);
            if natural && alg == Some(json!("ES256")) {
                alg = Some(json!(other));
            }
            if let (true, Some(a)) = (listed, &mut wallet_algs) {
                if let Some(Json::String(x)) = alg.as_ref().filter(|x| **x != json!("none")) {
                    a.push(x.clone());
                }
                if !a.iter().any(|x| x == other) && a.iter().any(|x| x == "ES256") {
                    a.push(other.into());
                }
            }
            focused(Plan {
            did,
            fragment,
            kid,
            cid,
            trust,
            alg,
            wallet_algs,
            sign,
            resolved: res.unwrap_or(Some(sign)),
            decoys,
            tamper,
            typ,
            extra_header,
            via_wallet: w.is_some(),
            nonce,
            claims,
            echoes,
            before,
            key_says,
        }, focus)})
        .boxed()
}

/// The plan with at most one thing wrong.
fn focused(mut p: Plan, focus: Option<u8>) -> Plan {
    let Some(k) = focus else { return p };
    let k = k % 9;
    if k != 0 {
        p.kid = Kid::Good;
    }
    if k != 1 {
        p.cid = Cid::Prefixed;
    }
    if k != 2 && !matches!(p.trust, Trust::With(..)) {
        p.trust = Trust::All;
    }
    if k != 3 {
        p.alg = Some(json!(key_alg(p.sign)));
    }
    if k != 4 {
        p.wallet_algs = Some(vec!["RS256".into(), key_alg(p.sign).into(), "ES256".into()]);
    }
    if k != 5 {
        p.resolved = Some(p.sign);
    }
    if k != 6 {
        p.tamper = Tamper::None;
    }
    if k != 7 && p.extra_header >= 7 {
        p.extra_header = 0;
    }
    p
}

struct Made {
    jwt: String,
    client_id: Option<String>,
    trusted: Option<Vec<String>>,
    resolver: TableResolver,
    payload: Json,
    kid: Option<String>,
}

fn make(p: &Plan) -> Made {
    let kid: Option<Json> = match &p.kid {
        Kid::Good => Some(json!(format!("{}#{}", p.did, p.fragment))),
        Kid::Other(d) => Some(json!(format!("{}#{}", d, p.fragment))),
        Kid::Near(k) => Some(json!(format!("{}#{}", near(&p.did, *k), p.fragment))),
        Kid::NoFragment => Some(json!(p.did)),
        Kid::Missing => None,
        Kid::NotText(j) => Some(j.clone()),
        Kid::Twist(t, false) => Some(json!(format!("{}#{}", t.apply(&p.did), p.fragment))),
        Kid::Twist(t, true) => Some(json!(t.apply(&format!("{}#{}", p.did, p.fragment)))),
    };
    let client_id = match &p.cid {
        Cid::Prefixed => Some(format!("decentralized_identifier:{}", p.did)),
        Cid::Bare => Some(p.did.clone()),
        Cid::OtherDid(d) => Some(format!("decentralized_identifier:{d}")),
        Cid::OtherPrefix(x) => Some(format!("{x}:{}", p.did)),
        Cid::Near(k) => Some(format!("decentralized_identifier:{}", near(&p.did, *k))),
        Cid::None => None,
        Cid::Twist(t, false) => Some(format!("decentralized_identifier:{}", t.apply(&p.did))),
        Cid::Twist(t, true) => Some(t.apply(&format!("decentralized_identifier:{}", p.did))),
    };
    let kid_text = kid.as_ref().and_then(|k| k.as_str()).map(String::from);
    let trusted = match &p.trust {
        Trust::All => None,
        Trust::With(a, b) => Some(
            a.iter()
                .chain([&p.did])
                .chain(b)
                .cloned()
                .collect::<Vec<_>>(),
        ),
        Trust::Without(a) => Some(a.iter().filter(|d| **d != p.did).cloned().collect()),
        Trust::Near(ks) => Some(
            ks.iter()
                .map(|k| near(&p.did, *k))
                .chain(kid_text.clone())
                .collect(),
        ),
        Trust::Twist(ts) => Some(ts.iter().map(|t| t.apply(&p.did)).collect()),
    };
    let mut table = vec![];
    if let Trust::Twist(_) = &p.trust {
        // a key for what the trusted names might be taken for
        for t in trusted.iter().flatten() {
            table.push((t.clone(), p.sign));
        }
    }
    if let (Some(k), Some(key)) = (&kid_text, p.resolved) {
        table.push((k.clone(), key));
    }
    for (what, key) in &p.decoys {
        table.push((
            match what {
                0 => p.did.clone(),
                1 => format!("{}#{}x", p.did, p.fragment),
                2 => format!("did:web:unrelated.example#{}", p.fragment),
                3 => p.fragment.clone(),
                _ => client_id.clone().unwrap_or_default(),
            },
            *key,
        ));
    }
    let mut header = Map::new();
    if let Some(a) = &p.alg {
        header.insert("alg".into(), a.clone());
    }
    if let Some(k) = kid {
        header.insert("kid".into(), k);
    }
    if p.typ || p.via_wallet {
        header.insert("typ".into(), json!(TYP));
    }
    add_extra(&mut header, p.extra_header, p.sign);
    let mut payload = Json::Object(p.claims.clone());
    add_needed(&mut payload, &p.nonce);
    let names: Vec<String> = [kid_text.as_ref().and_then(|k| k.split('#').next()).map(String::from), Some(p.did.clone()), kid_text.clone(), client_id.clone()]
        .into_iter()
        .flatten()
        .chain(client_id.iter().filter_map(|c| c.split_once(':')).map(|c| c.1.to_string()))
        .chain(trusted.iter().flatten().cloned())
        .collect();
    add_echoes(&mut header, &mut payload, &p.echoes, &names);
    if let Some(c) = &client_id {
        payload["client_id"] = json!(c);
    }
    let jwt = tampered(
        p.sign,
        &Json::Object(header).to_string(),
        &payload.to_string(),
        &p.tamper,
    );
    Made {
        jwt,
        client_id,
        trusted,
        resolver: TableResolver { extra: p.key_says.clone(), ..TableResolver::new(table) },
        payload,
        kid: kid_text,
    }
}

/// The property's condition, evaluated on the final JWT.  None: outside of what is stated.
fn expected(p: &Plan, m: &Made) -> Option<bool> {
    let Some(header) = jws_header(&m.jwt) else {
        return Some(false);
    };
    let Some(Json::String(alg)) = header.get("alg") else {
        return Some(false);
    };
    let Some(algs) = &p.wallet_algs else {
        return Some(false);
    };
    if !algs.contains(alg) {
        return Some(false);
    }
    if alg == "none" {
        return None;
    }
    let Some(Json::String(kid)) = header.get("kid") else {
        return Some(false);
    };
    let Some((did, rest)) = kid.split_once('#') else {
        return Some(false);
    };
    if rest.contains('#') {
        return None;
    }
    let Some(client_id) = &m.client_id else {
        return Some(false);
    };
    let named = client_id
        .strip_prefix("decentralized_identifier:")
        .unwrap_or(client_id);
    if named != did {
        return Some(false);
    }
    if let Some(t) = &m.trusted {
        if !t.iter().any(|x| x == did) {
            return Some(false);
        }
    }
    let Some(key) = m.resolver.lookup(kid) else {
        return Some(false);
    };
    let signed = verify_jws_by(key, &m.jwt);
    if signed && unusual_header(&header) {
        return None;
    }
    if signed && alg != key_alg(key) && key >= SECP256K1 {
        // whether the header's algorithm has to be the key's is left to the JWS library
        return None;
    }
    if signed && ["use", "key_ops", "alg"].iter().any(|k| p.key_says.get(*k).is_some_and(|v| *v != json!("sig") && *v != json!(["verify"]) && *v != json!(alg))) {
        // nor what a key says of its use
        return None;
    }
    Some(alg == key_alg(key) && signed)
}

/// A request like this one: the verdict on a request does not depend on what was verified before.
fn similar(p: &Plan, k: u8) -> Plan {
    let mut q = p.clone();
    q.before = vec![];
    let genuine = |q: &mut Plan| {
        q.kid = Kid::Good;
        q.cid = Cid::Prefixed;
        q.trust = Trust::All;
        q.alg = Some(json!(key_alg(q.sign)));
        q.wallet_algs = Some(vec!["ES256".into(), key_alg(q.sign).into()]);
        q.resolved = Some(q.sign);
        q.tamper = Tamper::None;
        q.extra_header = 0;
    };
    match k {
        0 => genuine(&mut q),
        1 => q.tamper = Tamper::None,
        2 => {
            q.sign = (q.sign + 1) % 4;
            genuine(&mut q);
        }
        3 => {}
        4 => {
            genuine(&mut q);
            q.fragment += "2";
            q.resolved = Some(q.sign);
        }
        5 => {
            q.trust = Trust::All;
            q.tamper = Tamper::None;
        }
        6 => {
            genuine(&mut q);
            q.nonce += "x";
        }
        7 => {
            genuine(&mut q);
            q.did += "x";
        }
        // whoever is claimed to ask has asked before
        _ => {
            let c = make(p).client_id.unwrap_or_default();
            let claimed = c.strip_prefix("decentralized_identifier:").unwrap_or(&c);
            if claimed.strip_prefix("did:").is_some_and(|d| d.bytes().all(|b| b.is_ascii_alphanumeric() || b".:-_".contains(&b))) {
                q.did = claimed.to_string();
            }
            genuine(&mut q);
        }
    }
    q
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    for k in &p.before {
        obs.label("after a similar request");
        one(&similar(p, *k), &mut Obs::default())?;
    }
    one(p, obs)
}

fn one(p: &Plan, obs: &mut Obs) -> Check {
    let m = make(p);
    let Some(expect) = expected(p, &m) else {
        return Ok(());
    };
    let meta = metadata(match &p.wallet_algs {
        Some(a) => json!({
            "request_object_signing_alg_values_supported": a,
            "client_id_prefixes_supported": ["decentralized_identifier"],
        }),
        None => json!({"client_id_prefixes_supported": ["decentralized_identifier"]}),
    });
    if expect {
        obs.nontrivial();
        obs.label("accepted");
    } else if verify_jws_by(p.resolved.unwrap_or(p.sign), &m.jwt) {
        obs.nontrivial();
        obs.label("refused although the signature verifies under the resolved key");
    } else {
        obs.label("refused, signature does not verify");
    }
    let request = match aro(m.payload.clone()) {
        Ok(r) => r,
        Err(e) => crate::fail!("request object refused: {e:#}"),
    };
    let got = run!(verify_with_resolver(
        &meta,
        &request,
        m.jwt.clone(),
        m.trusted.as_deref(),
        &m.resolver,
    ));
    ensure_eq!(got.is_ok(), expect, "verification of the request ({:?})", got.err().map(|e| format!("{e:#}")));
    for asked in m.resolver.asked.lock().unwrap().drain(..) {
        let shown = jws_header(&m.jwt).and_then(|h| h.get("kid").and_then(|k| k.as_str().map(String::from)));
        ensure!(asked.is_some() && asked == shown, "the resolver was asked for {asked:?}, the key identifier is {shown:?}");
    }
    // the same through a wallet
    if p.via_wallet && matches!(p.cid, Cid::Prefixed | Cid::Near(_) | Cid::OtherDid(_) | Cid::Twist(_, false)) {
        obs.label("through a wallet");
        obs.extra(1);
        let w = LibWallet {
            metadata: meta,
            http: MockHttp::none(),
            resolver: m.resolver.clone(),
            trusted_dids: m.trusted.clone(),
        };
        let url = AuthorizationRequest {
            client_id: m.client_id.clone(),
            request_indirection: RequestIndirection::ByValue { request: m.jwt.clone() },
        }
        .to_url("openid4vp:".parse().unwrap())
        .map_err(|e| e.to_string())?;
        let got = run!(w.validate_request(url));
        ensure_eq!(got.is_ok(), expect, "validation of the request by a wallet ({:?})", got.err().map(|e| format!("{e:#}")));
    }
    let _ = &m.kid;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        level: "exploration",
        assumptions: &[
            "ES256, ES256K and EdDSA keys; resolvers that answer from a fixed table",
            "ECDSA, EdDSA and SHA-256 of the p256, k256, ed25519-dalek and sha2 crates are correct and unforgeable",
        ],
        subs: vec![Box::new(SubCheck {
            name: "did",
            rule: "the request is to be accepted, or is refused for a reason other than its signature",
            quick: 24_000,
            thorough: 600_000,
            strat,
            examples: no_examples,
            test,
        })],
    }
}
