//! C29: nonces have the requested size and never repeat.
use openid4vp::core::authorization_request::parameters::Nonce;
use proptest::prelude::*;
use rand::{rngs::StdRng, RngCore, SeedableRng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};
use std::collections::{BTreeMap, BTreeSet};

use crate::{ensure, ensure_eq, fw::*, gen};

/// A source that also counts what is taken from it.
struct Counting {
    inner: StdRng,
    bytes: u64,
}

impl RngCore for Counting {
    fn next_u32(&mut self) -> u32 {
        self.bytes += 4;
        self.inner.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.bytes += 8;
        self.inner.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.bytes += d.len() as u64;
        self.inner.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

fn source(seed: u64) -> Counting {
    Counting { inner: StdRng::seed_from_u64(seed), bytes: 0 }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    seed: u64,
    lengths: Vec<u16>,
}

fn strat(t: Tier) -> BoxedStrategy<Plan> {
    let long = if t == Tier::Quick { 600u16 } else { 6000 };
    (any::<u64>(), proptest::collection::vec(prop_oneof![2 => 0u16..4, 6 => 4u16..64, 2 => 64u16..long], 1..8))
        .prop_map(|(seed, lengths)| Plan { seed, lengths })
        .boxed()
}

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let (mut a, mut b, mut c) = (source(p.seed), source(p.seed), source(p.seed ^ 1));
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for n in &p.lengths {
        let n = *n as usize;
        let x = Nonce::random(&mut a, n);
        ensure_eq!(x.chars().count(), n, "number of characters of {:?}", x.as_str());
        ensure!(x.chars().all(|c| c.is_ascii_alphanumeric()), "characters of {:?}", x.as_str());
        ensure_eq!(x.to_string(), *x, "text of a nonce");
        ensure_eq!(Json::from(x.clone()), json!(*x), "JSON of a nonce");
        // the same source in the same state: the same nonce; another source: another one
        let y = Nonce::random(&mut b, n);
        ensure_eq!(*y, *x, "nonce from an equal source");
        let z = Nonce::random(&mut c, n);
        if n >= 16 {
            obs.nontrivial();
            obs.label("long");
            ensure!(*z != *x, "two sources gave {x}");
            ensure!(seen.insert(x.to_string()), "{x} was given twice by one source");
            ensure!(seen.insert(z.to_string()), "{z} was given twice");
            // no less than the randomness of its characters is used
            let k = x.chars().collect::<BTreeSet<_>>().len();
            let least = if n >= 200 { 40 } else { 5 };
            ensure!(k >= least, "{x} has only {k} different characters");
        } else {
            obs.label("short");
        }
    }
    ensure_eq!(a.bytes, b.bytes, "what is taken from equal sources");
    let chars: u64 = p.lengths.iter().map(|x| *x as u64).sum();
    ensure!(a.bytes * 8 >= chars * 5, "{chars} characters were made from {} random bytes", a.bytes);
    Ok(())
}

// the distribution
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Batch {
    seed: u64,
    length: u16,
}

fn batch(_: Tier) -> BoxedStrategy<Batch> {
    let length = prop_oneof![6 => 16u16..48, 1 => 1u16..16, 1 => 48u16..160, 1 => gen::new_size().unwrap_or(Just(0usize).boxed()).prop_map(|n| n.clamp(16, 300) as u16)];
    (any::<u64>(), length).prop_map(|(seed, length)| Batch { seed, length }).boxed()
}

const N: usize = 3000;

/// The earlier positions a position is compared with.
fn others(i: usize) -> Vec<usize> {
    if i <= 48 {
        return (0..i).collect();
    }
    let mut v: Vec<usize> = [1, 2, 3, 4, 8, 16, 22, 31, 32, 43, 48, 62, 64, 128, 256].iter().filter_map(|d| i.checked_sub(*d)).collect();
    v.extend([0, i / 2]);
    v.sort();
    v.dedup();
    v
}

fn test_batch(p: &Batch, obs: &mut Obs) -> Check {
    obs.nontrivial();
    let mut s = source(p.seed);
    let len = p.length as usize;
    let mut seen: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut counts = vec![0usize; len * 256];
    let mut equal = vec![0usize; len * len];
    let pairs: Vec<Vec<usize>> = (0..len).map(others).collect();
    let mut last: Vec<u8> = vec![];
    let mut stay = vec![0usize; len];
    for _ in 0..N {
        let x = Nonce::random(&mut s, len).as_bytes().to_vec();
        ensure_eq!(x.len(), len, "length");
        for i in 0..len {
            counts[i * 256 + x[i] as usize] += 1;
            if last.get(i) == Some(&x[i]) {
                stay[i] += 1;
            }
            for j in &pairs[i] {
                if x[i] == x[*j] {
                    equal[i * len + *j] += 1;
                }
            }
        }
        ensure!(len < 16 || seen.insert(x.clone()), "the nonce {:?} came twice", String::from_utf8_lossy(&x));
        last = x;
    }
    // 48 expected for each of the 62 characters, standard deviation 7; for the others about as many
    for i in 0..len {
        let m: BTreeMap<u8, usize> = (0..=255u8).map(|c| (c, counts[i * 256 + c as usize])).filter(|x| x.1 > 0).collect();
        ensure_eq!(m.len(), 62, "number of different characters in position {i}");
        for (c, k) in &m {
            ensure!((5..=110).contains(k), "character {:?} came {k} times of {N} in position {i}", *c as char);
        }
        ensure!(stay[i] < 120, "position {i} did not change in {} of {N} nonces", stay[i]);
        for j in others(i) {
            ensure!(equal[i * len + j] < 120, "positions {i} and {j} are equal in {} of {N} nonces", equal[i * len + j]);
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C29",
        level: "exploration",
        assumptions: &["the random source is a seeded StdRng; bounds on the distribution are over 6 standard deviations wide"],
        subs: vec![
            Box::new(SubCheck {
                name: "nonces",
                rule: "a seeded source and a list of lengths; non-trivial: a length of at least 16",
                quick: 8_000,
                thorough: 200_000,
                strat,
                examples: no_examples,
                test,
            }),
            Box::new(SubCheck {
                name: "distribution",
                rule: "a seeded source and a length: 3000 nonces, by position; non-trivial: all",
                quick: 24,
                thorough: 1_000,
                strat: batch,
                examples: no_examples,
                test: test_batch,
            }),
        ],
    }
}
