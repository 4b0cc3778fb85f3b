//! C18: mdoc session transcripts bind exactly the request they were made from.
use openid4vp::core::iso_18013_7::{DcApiHandover, Handover, SessionTranscript};
use proptest::{collection::vec, option, prelude::*, sample::select};
use serde::{de::DeserializeOwned, Deserialize, Serialize};

use crate::{ensure, ensure_eq, fail, fw::*, gen, kit::*};

// ---------------------------------------------------------------------------------------------
// an independent CBOR writer (RFC 8949, preferred serialization)

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Cb {
    Null,
    Undefined,
    Bool(bool),
    Uint(u64),
    Bytes(Vec<u8>),
    Text(String),
    Array(Vec<Cb>),
    Map(Vec<(Cb, Cb)>),
    Tag(u64, Box<Cb>),
}

fn head(major: u8, n: u64, out: &mut Vec<u8>) {
    let m = major << 5;
    match n {
        0..=23 => out.push(m | n as u8),
        24..=0xff => out.extend([m | 24, n as u8]),
        0x100..=0xffff => {
            out.push(m | 25);
            out.extend((n as u16).to_be_bytes())
        }
        0x1_0000..=0xffff_ffff => {
            out.push(m | 26);
            out.extend((n as u32).to_be_bytes())
        }
        _ => {
            out.push(m | 27);
            out.extend(n.to_be_bytes())
        }
    }
}

impl Cb {
    fn put(&self, out: &mut Vec<u8>) {
        match self {
            Cb::Null => out.push(0xf6),
            Cb::Undefined => out.push(0xf7),
            Cb::Bool(b) => out.push(if *b { 0xf5 } else { 0xf4 }),
            Cb::Uint(n) => head(0, *n, out),
            Cb::Bytes(b) => {
                head(2, b.len() as u64, out);
                out.extend(b)
            }
            Cb::Text(t) => {
                head(3, t.len() as u64, out);
                out.extend(t.as_bytes())
            }
            Cb::Array(v) => {
                head(4, v.len() as u64, out);
                v.iter().for_each(|x| x.put(out))
            }
            Cb::Map(v) => {
                head(5, v.len() as u64, out);
                v.iter().for_each(|(a, b)| {
                    a.put(out);
                    b.put(out)
                })
            }
            Cb::Tag(t, x) => {
                head(6, *t, out);
                x.put(out)
            }
        }
    }

    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        self.put(&mut v);
        v
    }
}

const REDIRECT: &str = "OpenID4VPHandover";
const DC_API: &str = "OpenID4VPDCAPIHandover";

// ---------------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    client: String,
    nonce: String,
    thumbprint: Option<Vec<u8>>,
    uri: String,
    /// How the second request differs from the first.
    change: u8,
    other: String,
}

fn long_text() -> BoxedStrategy<String> {
    prop_oneof![
        8 => gen::text(),
        2 => ("[a-z]", prop_oneof![22usize..26, 254usize..258, 65534usize..65538]).prop_map(|(c, n)| c.repeat(n)),
        1 => ("é|漢|🦀", 5usize..90).prop_map(|(c, n)| c.repeat(n)),
    ]
    .boxed()
}

fn strat(_: Tier) -> BoxedStrategy<Plan> {
    (
        prop_oneof![2 => long_text(), 1 => gen::text().prop_map(|s| format!("x509_san_dns:{s}"))],
        long_text(),
        option::of(prop_oneof![4 => vec(any::<u8>(), 32), 1 => vec(any::<u8>(), 0..300), 1 => Just(vec![0u8; 32])]),
        prop_oneof![2 => long_text(), 2 => gen::http_url(), 1 => select(vec!["HTTPS://Example.COM:443/A/../b", "https://e.example/%7Ea", "https://e.example", "https://e.example/"]).prop_map(String::from)],
        0u8..9,
        prop_oneof![3 => gen::nonempty_text(), 1 => gen::word().prop_filter("not empty", |w| !w.is_empty()), 1 => select(vec![" ", "/", "#", "?", "\0", "=", "\u{301}", "\u{200b}"]).prop_map(String::from)],
        prop_oneof![3 => Just(0u8), 1 => 1u8..14],
    )
        .prop_map(|(client, nonce, thumbprint, uri, change, other, same)| {
            let mut p = Plan { client, nonce, thumbprint, uri, change, other };
            // values that coincide
            match same {
                1 => p.nonce = p.client.clone(),
                2 => p.uri = p.client.clone(),
                3 => p.uri = p.nonce.clone(),
                4 => p.client = format!("redirect_uri:{}", p.uri),
                5 => p.client = format!("origin:{}", p.uri),
                6 => p.thumbprint = Some(p.nonce.clone().into_bytes()),
                7 => p.thumbprint = Some(sha(p.nonce.as_bytes())),
                8 => p.thumbprint = Some(sha(p.client.as_bytes())),
                9 => p.thumbprint = Some(sha(p.uri.as_bytes())),
                10 => {
                    p.nonce = p.client.clone();
                    p.uri = p.client.clone();
                    p.thumbprint = Some(p.client.clone().into_bytes())
                }
                11 => p.client = p.uri.clone(),
                12 => p.thumbprint = Some(vec![p.change; 32]),
                13 => p.nonce = "0".repeat(p.nonce.chars().count()),
                _ => {}
            }
            p
        })
        .boxed()
}

fn thumb(t: &Option<Vec<u8>>) -> Cb {
    match t {
        Some(b) => Cb::Bytes(b.clone()),
        None => Cb::Null,
    }
}

fn text(s: &str) -> Cb {
    Cb::Text(s.to_string())
}

fn one<H: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(what: &str, h: H, own: Vec<u8>, hash: &[u8], label: &str, info: Cb) -> Result<Vec<u8>, Fail> {
    let want_hash = sha(info.bytes());
    ensure_eq!(hex(hash), hex(&want_hash), "{what}: hash of the handover information");
    let handover = Cb::Array(vec![text(label), Cb::Bytes(want_hash)]);
    ensure_eq!(hex(&own), hex(&handover.bytes()), "{what}: CBOR");
    let mut ser = vec![];
    ciborium::into_writer(&h, &mut ser).map_err(|e| format!("{what}: serializing: {e}"))?;
    ensure_eq!(hex(&ser), hex(&own), "{what}: serde form");
    let back: H = ciborium::from_reader(&own[..]).map_err(|e| format!("{what}: its own CBOR is refused: {e}"))?;
    ensure!(back == h, "{what}: decoded to {back:?}");
    let t = SessionTranscript::new(h);
    let want = Cb::Array(vec![Cb::Null, Cb::Null, handover]).bytes();
    let got = t.to_cbor_bytes().map_err(|e| format!("{what}: transcript: {e:#}"))?;
    ensure_eq!(hex(&got), hex(&want), "{what}: transcript");
    let mut ser = vec![];
    ciborium::into_writer(&t, &mut ser).map_err(|e| format!("{what}: serializing the transcript: {e}"))?;
    ensure_eq!(hex(&ser), hex(&got), "{what}: serde form of the transcript");
    let back: SessionTranscript<H> = ciborium::from_reader(&got[..]).map_err(|e| format!("{what}: its own transcript is refused: {e}"))?;
    ensure!(back == t && back.handover() == t.handover(), "{what}: transcript decoded to {back:?}");
    Ok(got)
}

fn redirect(p: &Plan) -> Result<Vec<u8>, Fail> {
    let h = Handover::new(&p.client, &p.nonce, p.thumbprint.as_deref(), &p.uri).map_err(|e| format!("handover: {e:#}"))?;
    let own = h.to_cbor_bytes().map_err(|e| format!("handover: {e:#}"))?;
    let hash = h.handover_info_hash().to_vec();
    one("handover", h, own, &hash, REDIRECT, Cb::Array(vec![text(&p.client), text(&p.nonce), thumb(&p.thumbprint), text(&p.uri)]))
}

fn dc(p: &Plan) -> Result<Vec<u8>, Fail> {
    let h = DcApiHandover::new(&p.uri, &p.nonce, p.thumbprint.as_deref()).map_err(|e| format!("handover: {e:#}"))?;
    let own = h.to_cbor_bytes().map_err(|e| format!("handover: {e:#}"))?;
    let hash = h.handover_info_hash().to_vec();
    one("DC API handover", h, own, &hash, DC_API, Cb::Array(vec![text(&p.uri), text(&p.nonce), thumb(&p.thumbprint)]))
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let a = redirect(p)?;
    let b = dc(p)?;
    ensure!(a != b, "the two kinds of transcript coincide");
    // the other kind's structures are refused
    ensure!(ciborium::from_reader::<SessionTranscript<DcApiHandover>, _>(&a[..]).is_err(), "a redirect transcript was read as one for the DC API");
    ensure!(ciborium::from_reader::<SessionTranscript<Handover>, _>(&b[..]).is_err(), "a DC API transcript was read as one for redirects");
    // any difference shows
    let mut q = p.clone();
    let mut only_redirect = false;
    match p.change {
        0 => {
            q.client += &p.other;
            only_redirect = true
        }
        1 => q.nonce += &p.other,
        2 => q.uri += &p.other,
        3 => {
            // move a character from one value to its neighbour
            let Some(c) = q.client.pop() else { return Ok(()) };
            q.nonce.insert(0, c)
        }
        4 => match &mut q.thumbprint {
            Some(t) if !t.is_empty() => t[0] ^= 1,
            t => *t = Some(vec![]),
        },
        5 => q.thumbprint = if q.thumbprint.is_some() { None } else { Some(vec![0xf6]) },
        6 => {
            std::mem::swap(&mut q.client, &mut q.nonce);
        }
        7 => q.nonce = q.nonce.to_uppercase(),
        _ => q.nonce.push(' '),
    }
    let differ = (&q.client, &q.nonce, &q.thumbprint, &q.uri) != (&p.client, &p.nonce, &p.thumbprint, &p.uri);
    if differ {
        obs.nontrivial();
        ensure!(redirect(&q)? != a, "two different requests have one transcript");
        let h = |p: &Plan| Handover::new(&p.client, &p.nonce, p.thumbprint.as_deref(), &p.uri).map_err(|e| format!("handover: {e:#}"));
        let (x, y) = (h(p)?, h(&q)?);
        ensure!(x != y, "handovers of two different requests are equal: {x:?}");
        ensure!(SessionTranscript::new(x) != SessionTranscript::new(y), "transcripts of two different requests are equal");
        if !only_redirect && (&q.nonce, &q.thumbprint, &q.uri) != (&p.nonce, &p.thumbprint, &p.uri) {
            ensure!(dc(&q)? != b, "two different DC API requests have one transcript");
            let h = |p: &Plan| DcApiHandover::new(&p.uri, &p.nonce, p.thumbprint.as_deref()).map_err(|e| format!("handover: {e:#}"));
            let (x, y) = (h(p)?, h(&q)?);
            ensure!(x != y, "handovers of two different DC API requests are equal: {x:?}");
            ensure!(SessionTranscript::new(x) != SessionTranscript::new(y), "transcripts of two different DC API requests are equal");
        }
    }
    obs.label(if p.thumbprint.is_some() { "with thumbprint" } else { "without thumbprint" });
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// what must be refused

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Foreign {
    label: String,
    hash: Vec<u8>,
    shape: u8,
    junk: Cb,
    dc: bool,
}

fn cb() -> BoxedStrategy<Cb> {
    prop_oneof![
        Just(Cb::Bool(true)),
        any::<u64>().prop_map(Cb::Uint),
        gen::text().prop_map(Cb::Text),
        vec(any::<u8>(), 0..4).prop_map(Cb::Bytes),
        Just(Cb::Array(vec![])),
        Just(Cb::Map(vec![])),
    ]
    .boxed()
}

fn foreign(_: Tier) -> BoxedStrategy<Foreign> {
    (
        prop_oneof![
            4 => select(vec![REDIRECT, DC_API]).prop_map(String::from),
            3 => select(vec!["openid4vphandover", "OpenID4VPHandover ", "OpenID4VP", "OpenID4VPDCAPIHandove", "OpenID4VPHandoverX", "", "OpenID4VPDCAPI", "OID4VPHandover"]).prop_map(String::from),
            1 => gen::text(),
            2 => (gen::twist(), select(vec![REDIRECT, DC_API])).prop_map(|(t, s)| t.apply(s)),
        ],
        prop_oneof![3 => vec(any::<u8>(), 32), 1 => vec(any::<u8>(), 0..40)],
        0u8..10,
        cb(),
        any::<bool>(),
    )
        .prop_map(|(label, hash, shape, junk, dc)| Foreign { label, hash, shape, junk, dc })
        .boxed()
}

fn reads<H: DeserializeOwned>(b: &[u8]) -> bool {
    ciborium::from_reader::<H, _>(b).is_ok()
}

fn test_foreign(p: &Foreign, obs: &mut Obs) -> Check {
    let want = if p.dc { DC_API } else { REDIRECT };
    let handover = Cb::Array(vec![text(&p.label), Cb::Bytes(p.hash.clone())]);
    // (structure, is it a transcript, is it well-formed)
    let labelled = p.label == want;
    let (c, transcript, good) = match p.shape {
        0 => (handover, false, labelled),
        1 => (Cb::Array(vec![Cb::Null, Cb::Null, handover]), true, labelled),
        2 => (Cb::Array(vec![text(&p.label)]), false, false),
        3 => (Cb::Array(vec![]), false, false),
        4 => (p.junk.clone(), p.hash.len() % 2 == 0, false),
        5 => (Cb::Array(vec![p.junk.clone(), Cb::Null, handover]), true, false),
        6 => (Cb::Array(vec![Cb::Null, p.junk.clone(), handover]), true, false),
        7 => (Cb::Array(vec![Cb::Null, Cb::Null]), true, false),
        8 => (Cb::Array(vec![Cb::Null, Cb::Null, p.junk.clone()]), true, false),
        _ => (Cb::Array(vec![Cb::Bytes(p.hash.clone()), text(&p.label)]), false, false),
    };
    // a hash of another length is neither produced nor claimed to be refused
    if good && p.hash.len() != 32 {
        return Ok(());
    }
    let b = c.bytes();
    let got = match (p.dc, transcript) {
        (false, false) => reads::<Handover>(&b),
        (true, false) => reads::<DcApiHandover>(&b),
        (false, true) => reads::<SessionTranscript<Handover>>(&b),
        (true, true) => reads::<SessionTranscript<DcApiHandover>>(&b),
    };
    obs.nontrivial();
    obs.label(if good { "own structures" } else { "foreign structures" });
    if got != good {
        fail!("{} was {} ({c:?})", hex(&b), if got { "accepted" } else { "refused" });
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        level: "exploration",
        assumptions: &["oracle: an independent CBOR writer and SHA-256 (sha2 crate)", "structures with surplus elements or other hash lengths are not judged"],
        subs: vec![
            Box::new(SubCheck { name: "transcripts", rule: "two requests that differ in a bound value were compared", quick: 16_000, thorough: 400_000, strat, examples: no_examples, test }),
            Box::new(SubCheck { name: "decoding", rule: "every case with a hash of 32 bytes or a malformed structure", quick: 30_000, thorough: 500_000, strat: foreign, examples: no_examples, test: test_foreign }),
        ],
    }
}
