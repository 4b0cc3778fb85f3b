//! Generators shared by the properties.  Everything generated is plain serde data.
#![allow(dead_code)]

use openid4vp::{
    core::{
        credential_format::ClaimFormatDesignation,
        dcql_query::{
            DcqlCredentialClaimsQuery, DcqlCredentialClaimsQueryPath,
            DcqlCredentialClaimsQueryValue, DcqlCredentialQuery, DcqlCredentialSetQuery,
            DcqlQuery, TrustedAuthoritiesQuery, TrustedAuthorityType,
        },
    },
    utils::NonEmptyVec,
};
use proptest::{collection::vec as few, option, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};

use crate::dict::dict;

/// A list of a usual length or, rarely, a much longer one.
pub fn vec<S>(s: S, n: std::ops::Range<usize>) -> BoxedStrategy<Vec<S::Value>>
where
    S: Strategy + Clone + 'static,
    S::Value: Clone + std::fmt::Debug,
{
    list(s, n, 3000)
}

/// The same for operations, each of which is followed by comparisons: never very many.
pub fn seq<S>(s: S, n: std::ops::Range<usize>) -> BoxedStrategy<Vec<S::Value>>
where
    S: Strategy + Clone + 'static,
    S::Value: Clone + std::fmt::Debug,
{
    list(s, n, 70)
}

fn list<S>(s: S, n: std::ops::Range<usize>, most: u64) -> BoxedStrategy<Vec<S::Value>>
where
    S: Strategy + Clone + 'static,
    S::Value: Clone + std::fmt::Debug,
{
    let (least, long) = (n.start, n.end..n.end + 36);
    let plain = prop_oneof![60 => few(s.clone(), n), 1 => few(s.clone(), long)];
    let of = |max: u64| dict().sizes.iter().filter(|k| **k <= max.min(most)).map(|k| *k as usize).collect::<Vec<_>>();
    let (small, large) = (of(70), of(3000));
    if large.is_empty() {
        return plain.boxed();
    }
    // a few elements, over and over, within bounds
    let sized = |sizes: Vec<usize>| {
        (few(s.clone(), 1..5), select(sizes), 0usize..3).prop_map(move |(v, k, d)| {
            let one = format!("{v:?}").len() / v.len() + 1;
            let n = (k + d).saturating_sub(1).min(150_000 / one + 1).max(least);
            v.into_iter().cycle().take(n).collect::<Vec<_>>()
        })
    };
    let large = sized(large);
    if small.is_empty() {
        return prop_oneof![300 => plain, 1 => large].boxed();
    }
    prop_oneof![300 => plain, 1 => large, 10 => sized(small)].boxed()
}

thread_local! {
    static RECENT: std::cell::RefCell<std::collections::VecDeque<(u8, String)>> = Default::default();
}

/// Texts of the kind, kept for [Recalled].
#[derive(Debug, Clone)]
struct Kept(u8, BoxedStrategy<String>);

impl Strategy for Kept {
    type Tree = Box<dyn proptest::strategy::ValueTree<Value = String>>;
    type Value = String;
    fn new_tree(&self, r: &mut proptest::test_runner::TestRunner) -> proptest::strategy::NewTree<Self> {
        let t = self.1.new_tree(r)?;
        let s = t.current();
        if s.len() < 300 {
            RECENT.with_borrow_mut(|l| {
                l.push_back((self.0, s));
                if l.len() > 8 {
                    l.pop_front();
                }
            });
        }
        Ok(t)
    }
}

/// One of the texts made last, mostly for the same case: values that happen to be equal.
#[derive(Debug, Clone)]
struct Recalled(u8);

impl Strategy for Recalled {
    type Tree = Box<dyn proptest::strategy::ValueTree<Value = String>>;
    type Value = String;
    fn new_tree(&self, r: &mut proptest::test_runner::TestRunner) -> proptest::strategy::NewTree<Self> {
        let l: Vec<String> = RECENT.with_borrow(|l| l.iter().filter(|s| match self.0 { 0 => true, 1 => is_ident(&s.1), k => s.0 == k }).map(|s| s.1.clone()).collect());
        let l = if l.is_empty() { vec![if self.0 == 2 { "https://a.example/" } else { "a" }.to_string()] } else { l };
        select(l).boxed().new_tree(r)
    }
}

fn is_ident(s: &str) -> bool {
    s.starts_with(|c: char| c.is_ascii_alphabetic()) && s.chars().all(|c| c.is_ascii_alphanumeric() || "_-".contains(c)) && s.len() < 40
}

/// Words that have a meaning somewhere.
const CLASSIC: &[&str] = &[
    "null", "true", "false", "undefined", "none", "NaN", "0", "1", "-1", "00", "1.0", "1e3", "*", "*.", ".", "..", "../", "/", "//", "\\", "://", ":", "::", "#", "?", "&", "&amp;", "=", "==", "+", "-", "_", "~", "@", "!", "$", "$ref", ",", ";", "|",
    "%", "%%", "%00", "%20", "%2B", "%2F", "%3A", "%3F", "%23", "%26", "%25", "%C3%A9", "\"", "\"\"", "'", "{}", "[]", "{", "}", "[0]", "()", "<", "</script>", " ", "  ", "\t", "\n", "\r\n", "\0", "\u{a0}", "\u{feff}", "\u{200b}", "\u{ad}", "\u{3000}",
    "did:", "did:web:", "did:key:", "did:web:*", "urn:", "https://", "http://", "https:", "http:", "data:", "www.", "xn--", ".com", ".example", "localhost", "127.0.0.1", "[::1]", ":443", ":80", ":8080", "x509_san_dns:", "x509_hash:", "redirect_uri:", "decentralized_identifier:", "verifier_attestation:", "openid_federation:", "origin:", "pre-registered", "x509_san_uri:", "verifier_attestation:jwt",
    "jwk", "jwks", "kid", "kty", "key_ops", "use", "alg", "enc", "sig", "cty", "typ", "JWT", "JWE", "jwt", "zip", "DEF", "iss", "sub", "aud", "exp", "nbf", "iat", "jti", "code", "id_token", "vp_token", "state", "error", "response", "expires_in", "redirect_uri", "admin", "test", "Basic", "Bearer", "ES256", "ES256K", "HS256", "A128GCM", "ECDH-ES", "P-256", "-----BEGIN CERTIFICATE-----", "é", "İ", "ß", "\u{1F980}",
];

/// A word of the code under test, preferably one that is new there, or one that has a meaning.
pub fn word() -> BoxedStrategy<String> {
    let d = dict();
    let classic = select(CLASSIC).prop_map(String::from);
    let old = if d.old.is_empty() { Just(String::new()).boxed() } else { select(d.old.clone()).boxed() };
    if d.new.is_empty() {
        return prop_oneof![2 => old, 3 => classic].boxed();
    }
    prop_oneof![1 => old, 1 => classic, 3 => select(d.new.clone())].boxed()
}

/// A word alone or in a text.
pub fn phrase() -> BoxedStrategy<String> {
    let part = || few(special_char(), 0..6).prop_map(|v| v.into_iter().collect::<String>());
    prop_oneof![
        3 => word(),
        1 => (word(), part()).prop_map(|(w, s)| format!("{w}{s}")),
        1 => (part(), word()).prop_map(|(s, w)| format!("{s}{w}")),
        2 => (part(), word(), part()).prop_map(|(s, w, t)| format!("{s}{w}{t}")),
        1 => (word(), part(), word()).prop_map(|(s, w, t)| format!("{s}{w}{t}")),
        1 => (word(), twist()).prop_map(|(w, t)| t.apply(&w)),
    ]
    .boxed()
}

/// Sizes at which something might be limited.
pub fn size() -> BoxedStrategy<usize> {
    let usual = (select(vec![500usize, 1025, 2049, 4097, 8193, 16385, 33000, 66000]), 0usize..4).prop_map(|(n, d)| n + d).boxed();
    match new_size() {
        None => usual,
        Some(new) => prop_oneof![1 => usual, 3 => new].boxed(),
    }
}

/// How many elements a long list has.
pub fn many() -> BoxedStrategy<usize> {
    let usual = prop_oneof![3 => 5usize..40, 1 => select(vec![63usize, 64, 99, 100, 127, 128, 255, 256, 260])].boxed();
    let new: Vec<usize> = dict().sizes.iter().filter(|n| **n <= 300).map(|n| *n as usize).collect();
    if new.is_empty() {
        return usual;
    }
    prop_oneof![1 => usual, 1 => (select(new), 0usize..3).prop_map(|(n, d)| (n + d).saturating_sub(1))].boxed()
}

/// Sizes that are new in the code under test.
pub fn new_size() -> Option<BoxedStrategy<usize>> {
    let new: Vec<usize> = dict().sizes.iter().filter(|n| **n <= 70_000).map(|n| *n as usize).collect();
    (!new.is_empty()).then(|| (select(new), 0usize..4).prop_map(|(n, d)| (n + d).saturating_sub(1)).boxed())
}

/// How a near miss of a text is made; always the same for the same text.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Twist {
    pub how: u8,
    pub at: u8,
    pub word: String,
}

pub fn twist() -> BoxedStrategy<Twist> {
    (any::<u8>(), any::<u8>(), word()).prop_map(|(how, at, word)| Twist { how, at, word }).boxed()
}

impl Twist {
    /// A text close to `s`, and mostly another one.
    pub fn apply(&self, s: &str) -> String {
        let c: Vec<char> = s.chars().collect();
        let i = if c.is_empty() { 0 } else { self.at as usize % c.len() };
        let cut = |n: usize| c[..n.min(c.len())].iter().collect::<String>();
        let rest = |n: usize| c[n.min(c.len())..].iter().collect::<String>();
        let w = &self.word;
        let with = |i: usize, f: &dyn Fn(char) -> char| c.iter().enumerate().map(|(k, x)| if k == i { f(*x) } else { *x }).collect::<String>();
        // another character of the same kind
        let other = |x: char| match x {
            'z' => 'a',
            'Z' => 'A',
            '9' => '0',
            x if x.is_ascii_alphanumeric() => (x as u8 + 1) as char,
            '-' => '_',
            _ => '-',
        };
        let swapped = |i: usize, j: usize| {
            let mut d = c.clone();
            if i < d.len() && j < d.len() {
                d.swap(i, j);
            }
            d.into_iter().collect::<String>()
        };
        match self.how % 48 {
            k @ 0..=15 => misspell(s, k, self.at),
            16..=18 => format!("{s}{w}"),
            19..=21 => format!("{w}{s}"),
            22 => format!("{}{w}{}", cut(i), rest(i)),
            23 => format!("{}{w}{}", cut(i), rest(i + 1)),
            24 => format!("{s}/{w}"),
            25 => format!("{s}:{w}"),
            26 => format!("{s}?{w}"),
            27 => format!("{s}#{w}"),
            28 => format!("{s}.{w}"),
            29 => format!("{w}.{s}"),
            30 => format!("{s}&{w}"),
            31 => format!("{w}:{s}"),
            32 => s.chars().map(|x| match x { '-' => '_', '_' => '-', x => x }).collect(),
            33 => format!("{s}{s}"),
            34 => cut(i),
            35 => rest(i),
            36 => {
                // one character percent-encoded
                let mut b = [0u8; 4];
                let e: String = c.get(i).map(|x| x.encode_utf8(&mut b).bytes().map(|b| format!("%{b:02X}")).collect()).unwrap_or_default();
                format!("{}{e}{}", cut(i), rest(i + 1))
            }
            37 => s.replace(w.as_str(), ""),
            38 => w.clone(),
            39 | 40 => with(c.len().wrapping_sub(1), &other),
            41 => with(0, &other),
            42 | 43 => with(i, &other),
            44 => swapped(i, i + 1),
            45 => swapped(0, c.len().wrapping_sub(1)),
            46 => format!("{s}\0"),
            _ => c.iter().rev().collect(),
        }
    }
}

/// Characters that matter to URLs, forms, JSON, JWTs and plain Unicode handling.
pub fn special_char() -> BoxedStrategy<char> {
    prop_oneof![
        8 => prop::char::range('a', 'z'),
        2 => prop::char::range('0', '9'),
        2 => prop::char::range('A', 'Z'),
        4 => select(vec!['&', '=', '+', '%', '#', '?', '/', ':', '"', '\\', ' ', '.', '-', '_', '~', '*', ';', ',', '@', '!', '\'', '(', ')', '[', ']', '{', '}', '<', '>', '|', '^', '`', '$']),
        1 => select(vec!['\n', '\r', '\t', '\u{0}', '\u{1f}', '\u{7f}']),
        2 => select(vec!['é', 'ß', 'Ω', '漢', '字', '🦀', '\u{200d}', '\u{202e}', '\u{301}', '\u{feff}', '\u{2028}', 'İ', 'ſ', '\u{ffff}', '\u{10ffff}']),
    ]
    .boxed()
}

pub fn text() -> BoxedStrategy<String> {
    Kept(0, prop_oneof![
        30 => Recalled(0),
        400 => few(special_char(), 0..12).prop_map(|v| v.into_iter().collect::<String>()),
        200 => "[a-z][a-z0-9]{0,8}",
        40 => Just(String::new()),
        40 => few(special_char(), 200..320).prop_map(|v| v.into_iter().collect::<String>()),
        40 => "[%+& =]{1,6}",
        if dict().new.is_empty() { 60 } else { 350 } => phrase(),
        1 => long_text(),
        match dict().sizes.iter().min() { None => 0, Some(n) if *n <= 300 => 20, Some(n) if *n <= 2000 => 8, _ => 2 } => new_size().map_or(long_text(), text_of),
    ]
    .boxed())
    .boxed()
}

/// Texts just beyond the sizes at which something might be limited.
pub fn long_text() -> BoxedStrategy<String> {
    text_of(size())
}

fn text_of(size: BoxedStrategy<usize>) -> BoxedStrategy<String> {
    (few(special_char(), 1..6), size)
        .prop_map(|(v, n)| v.into_iter().cycle().take(n).collect::<String>())
        .boxed()
}

pub fn nonempty_text() -> BoxedStrategy<String> {
    (special_char(), text())
        .prop_map(|(c, s)| format!("{c}{s}"))
        .boxed()
}

pub fn ident() -> BoxedStrategy<String> {
    let plain = "[a-zA-Z][a-zA-Z0-9_-]{0,10}".boxed();
    let new: Vec<String> = dict().new.iter().filter(|w| w.starts_with(|c: char| c.is_ascii_alphabetic()) && w.chars().all(|c| c.is_ascii_alphanumeric() || "_-".contains(c))).cloned().collect();
    let plain = prop_oneof![20 => plain, 1 => Recalled(1)].boxed();
    if new.is_empty() {
        return Kept(0, plain).boxed();
    }
    Kept(0, prop_oneof![4 => plain, 1 => select(new)].boxed()).boxed()
}

pub fn number() -> BoxedStrategy<Json> {
    prop_oneof![
        3 => any::<i64>().prop_map(Json::from),
        2 => any::<u64>().prop_map(Json::from),
        4 => (-20i64..300).prop_map(Json::from),
        // exactly representable, so that JSON text cannot round
        1 => (-1000i32..1000).prop_map(|i| json!(i as f64 + 0.5)),
        1 => select(vec![json!(i64::MAX), json!(i64::MIN), json!(u64::MAX), json!(0), json!(-1)]),
        1 => (select(vec![1u64 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 63]), 0u64..3).prop_map(|(n, d)| Json::from(n + d - 1)),
        if dict().sizes.is_empty() { 1 } else { 4 } => (select(if dict().sizes.is_empty() { vec![1] } else { dict().sizes.clone() }), 0u64..3).prop_map(|(n, d)| Json::from(n.saturating_add(d).saturating_sub(1))),
    ]
    .boxed()
}

pub fn json_scalar() -> BoxedStrategy<Json> {
    prop_oneof![
        1 => Just(Json::Null),
        2 => any::<bool>().prop_map(Json::from),
        3 => number(),
        6 => text().prop_map(Json::from),
    ]
    .boxed()
}

pub fn json_value() -> BoxedStrategy<Json> {
    let plain = json_scalar()
        .prop_recursive(3, 24, 5, |inner| {
            prop_oneof![
                few(inner.clone(), 0..5).prop_map(Json::from),
                few((text(), inner), 0..5)
                    .prop_map(|v| Json::Object(v.into_iter().collect::<Map<_, _>>())),
            ]
        })
        .boxed();
    // and a few that are deep
    prop_oneof![150 => plain.clone(), 1 => (plain, 4usize..60, any::<bool>()).prop_map(|(j, n, o)| (0..n).fold(j, |j, i| if o && i % 2 == 0 { json!({ "n": j }) } else { json!([j]) }))].boxed()
}

pub fn json_object() -> BoxedStrategy<Map<String, Json>> {
    vec((text(), json_value()), 0..5)
        .prop_map(|v| v.into_iter().collect::<Map<_, _>>())
        .boxed()
}

/// Parameter names that no part of the library interprets.
pub fn extension_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => ident().prop_map(|s| format!("x_{s}")),
        1 => select(vec!["iss", "iat", "exp", "scope", "wallet_nonce", "request_uri_method_x", "Client_id", "nonce ", "client_id_scheme", "presentation_definition", "id_token_hint", "registration", "prompt", "_", "$ref"]).prop_map(String::from),
        1 => nonempty_text().prop_map(|s| format!("x{s}")),
        if dict().foreign.is_empty() { 1 } else { 5 } => select(if dict().foreign.is_empty() { vec!["x".to_string()] } else { dict().foreign.clone() }),
    ]
    .boxed()
}

pub fn extension_params() -> BoxedStrategy<Map<String, Json>> {
    let few = vec((extension_name(), json_value()), 0..4).prop_map(|v| v.into_iter().collect::<Map<_, _>>());
    // very many of them
    let crowd = (many(), json_scalar()).prop_map(|(n, j)| (0..=n).map(|i| (format!("more_{i}"), j.clone())).collect());
    prop_oneof![100 => few, 1 => crowd].boxed()
}

/// Members that requests commonly have besides those they need.
/// Headers of an HTTP answer (and its version), none of which say what is in the body.
pub fn answer_headers() -> BoxedStrategy<Vec<(String, String)>> {
    let fixed = select(vec![
        ("content-type", "application/oauth-authz-req+jwt"),
        ("content-type", "application/json"),
        ("content-type", "application/json;charset=UTF-8"),
        ("content-type", "text/html"),
        ("content-type", "text/plain; charset=iso-8859-1"),
        ("content-type", "application/x-www-form-urlencoded"),
        ("content-type", "application/octet-stream"),
        ("content-type", ""),
        ("content-length", "0"),
        ("content-length", "5"),
        ("content-length", "100000"),
        ("content-encoding", "identity"),
        ("content-encoding", "gzip"),
        ("transfer-encoding", "chunked"),
        ("location", "https://other.example/next"),
        ("location", "/next"),
        ("content-location", "https://other.example/next"),
        ("refresh", "0; url=https://other.example/next"),
        ("redirect_uri", "https://other.example/next"),
        ("link", "<https://other.example/next>; rel=next"),
        ("cache-control", "no-store"),
        ("retry-after", "1"),
        ("warning", "199 - x"),
        ("www-authenticate", "Bearer"),
        ("dpop-nonce", "x"),
        ("set-cookie", "a=b"),
        ("prefer", "OID4VP-1.0.0"),
        ("preference-applied", "OID4VP-1.0.0"),
        ("connection", "close"),
        (":version", "1.0"),
        (":version", "2"),
        (":version", "3"),
    ])
    .prop_map(|(k, v)| (k.to_string(), v.to_string()));
    let typed = (select(vec!["content-type", "location", "x-error", "error"]), prop_oneof![2 => word(), 1 => http_url()])
        .prop_map(|(k, v)| (k.to_string(), v))
        .prop_filter("visible", |(_, v)| v.bytes().all(|b| (32..127).contains(&b)));
    let one = prop_oneof![4 => fixed, 1 => typed];
    prop_oneof![1 => Just(vec![]), 1 => proptest::collection::vec(one, 1..5)].boxed()
}

pub fn standard_param() -> BoxedStrategy<(String, Json)> {
    prop_oneof![
        select(vec![
            ("state", json!("s")),
            ("state", json!("")),
            ("aud", json!("https://self-issued.me/v2")),
            ("aud", json!(["https://self-issued.me/v2", "https://wallet.example"])),
            ("iss", json!("client")),
            ("iss", json!("https://verifier.example")),
            ("dcql_query", json!({"credentials": [{"id": "a", "format": "mso_mdoc", "meta": {"doctype_value": "x"}}]})),
            ("dcql_query", json!({"credentials": [{"id": "a", "format": "dc+sd-jwt", "meta": {"vct_values": ["x"]}, "claims": [{"path": ["b"]}]}]})),
            ("scope", json!("openid")),
            ("expected_origins", json!(["https://verifier.example"])),
            ("expected_origins", json!([])),
            ("request_uri_method", json!("post")),
            ("wallet_nonce", json!("w")),
            ("transaction_data", json!(["e30"])),
            ("verifier_info", json!([{"format": "jwt", "data": "e30.e30."}])),
            ("client_metadata", json!({"vp_formats_supported": {"mso_mdoc": {}}})),
            ("client_metadata", json!({"jwks": {"keys": []}, "client_name": "Verifier"})),
        ])
        .prop_map(|(k, v)| (k.to_string(), v)),
        (select(vec!["state", "iss", "scope", "wallet_nonce"]), text()).prop_map(|(k, v)| (k.to_string(), json!(v))),
    ]
    .boxed()
}

/// Members of a request that have no part in what is decided about it.
pub fn bystanders() -> BoxedStrategy<Map<String, Json>> {
    prop_oneof![1 => Just(Map::new()), 1 => extension_params(), 1 => vec(prop_oneof![3 => standard_param(), 1 => (extension_name(), json_value())], 1..5).prop_map(|v| v.into_iter().collect())].boxed()
}

/// What a certificate may hold as a DNS name.
pub fn dns_name() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[a-z]{1,5}\\.example\\.(com|org)",
        2 => "(\\*\\.)?[a-z]{1,4}\\.example",
        1 => "[A-Za-z]{1,5}\\.Example",
        1 => select(vec!["localhost", "x509_san_dns:a.example", "", "a.example.", "127.0.0.1", "a.example:8443", "*"]).prop_map(String::from),
        1 => "[a-z]{1,6}(\\.[a-z0-9-]{1,5}){1,3}",
        1 => "[a-z]{60,63}\\.xn--[a-z0-9]{3,6}",
        1 => "[a-z]{1,4}[_-][a-z]{1,4}\\.example",
        1 => ("[a-z]{1,5}\\.example", twist()).prop_map(|(d, t)| ascii(&t.apply(&d))),
        1 => (word(), "[a-z]{1,5}\\.example").prop_map(|(w, d)| ascii(&format!("{w}{d}"))),
        if dict().new.is_empty() { 1 } else { 2 } => (select(if dict().new.is_empty() { vec![String::new()] } else { dict().new.clone() }), "[a-z]{1,5}\\.example", any::<bool>()).prop_map(|(w, d, end)| ascii(&if end { format!("{d}{w}") } else { format!("{w}{d}") })),
        1 => prop_oneof![1 => select(vec![63usize, 64, 127, 128, 253, 254, 255, 256]), 1 => new_size().unwrap_or(Just(64).boxed())].prop_map(|n| "abcdefgh.".chars().cycle().take(n.min(1000)).collect()),
    ]
    .boxed()
}

/// A text with a word taken out of it.
pub fn without_word(s: &str) -> String {
    let words = dict().new.iter().map(String::as_str).chain(["www.", "xn--", "*.", "api."]);
    for w in words {
        if !w.is_empty() && s.contains(w) {
            return s.replacen(w, "", 1);
        }
    }
    s.chars().skip_while(|c| *c != '.').skip(1).collect()
}

fn ascii(s: &str) -> String {
    s.chars().filter(char::is_ascii).take(250).collect()
}

/// The `how`-th spelling close to `s`; equal to it only for very short names.
pub fn misspell(s: &str, how: u8, at: u8) -> String {
    let c: Vec<char> = s.chars().collect();
    let n = c.len();
    if n == 0 {
        return "x".into();
    }
    let i = at as usize % n;
    let swap = |from: &[char], to: &str| -> String {
        if c.iter().any(|x| from.contains(x)) {
            c.iter().flat_map(|x| if from.contains(x) { to.chars().collect::<Vec<_>>() } else { vec![*x] }).collect()
        } else {
            format!("{s}_")
        }
    };
    match how % 16 {
        0 => c[..n - 1].iter().collect(),
        1 => c[1..].iter().collect(),
        2 => format!("{s}s"),
        3 => format!("x{s}"),
        4 => s.to_uppercase(),
        5 => {
            let mut d = c.clone();
            d[i] = if d[i].is_lowercase() { d[i].to_ascii_uppercase() } else { d[i].to_ascii_lowercase() };
            d.into_iter().collect()
        }
        6 => swap(&['_', '-', '.', '+', ':', ' '], "-"),
        7 => swap(&['_', '-', '.', '+', ':', ' '], "_"),
        8 => swap(&['_', '-', '.', '+', ':', ' '], " "),
        9 => swap(&['_', '-', '.', '+', ':', ' '], ""),
        10 => format!(" {s}"),
        11 => format!("{s} "),
        12 => s.split(['_', '-', '.', '+', ':', ' ']).next().unwrap_or("").to_string(),
        13 => s.rsplit(['_', '-', '.', '+', ':', ' ']).next().unwrap_or("").to_string(),
        14 => {
            let mut d = c.clone();
            d.remove(i);
            d.into_iter().collect()
        }
        _ => {
            let mut d = c.clone();
            d.insert(i, c[i]);
            d.into_iter().collect()
        }
    }
}

/// One of `names`, or a spelling close to one.
pub fn near(names: &'static [&'static str]) -> BoxedStrategy<String> {
    (select(names), any::<u8>(), any::<u8>()).prop_map(|(n, h, a)| misspell(n, h, a)).boxed()
}

pub fn host() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-z]{1,6}(\\.[a-z]{1,5}){0,2}",
        1 => Just("localhost".to_string()),
        1 => Just("127.0.0.1".to_string()),
        1 => Just("xn--bcher-kva.example".to_string()),
    ]
    .boxed()
}

fn segment() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[a-z0-9]{1,6}",
        1 => "[A-Z]{1,3}",
        1 => select(vec!["a%20b", "%2F", "~x", "a+b", "a.b", "é", "漢", "a;b", "p=1", "x:y", "%25", "@"]).prop_map(String::from),
        if dict().new.is_empty() { 1 } else { 4 } => phrase().prop_map(|w| tame(&w)).prop_filter("a segment", |w| !w.is_empty() && w != "." && w != ".."),
    ]
    .boxed()
}

/// What of a text can be part of a segment of a path, or of a query, as it is.
fn tame(w: &str) -> String {
    let mut out = String::new();
    let c: Vec<char> = w.chars().filter(|c| !c.is_control() && !"/\\?# <>\"`{}^|".contains(*c)).take(300).collect();
    for (i, x) in c.iter().enumerate() {
        out.push(*x);
        if *x == '%' && !(i + 2 < c.len() && c[i + 1].is_ascii_hexdigit() && c[i + 2].is_ascii_hexdigit()) {
            out += "25";
        }
    }
    out
}

/// An absolute http(s) URL, normalised.
pub fn http_url() -> BoxedStrategy<String> {
    let url = (
        select(vec!["https", "https", "http"]),
        host(),
        option::weighted(0.3, 1u16..65535),
        vec(segment(), 0..4),
        any::<bool>(),
        option::weighted(0.3, prop_oneof![
            6 => "[a-z]{1,3}=[a-zA-Z0-9%+]{0,5}(&[a-z]=[0-9]{1,2})?".prop_map(|q| q.replace('%', "%41")),
            1 => select(vec!["", "a", "a&b", "&", "a=1&&b=2", "a=1&", "=", "a==b", "a=1&a=2", "a=b?c", "a=%26", "a=1;b=2", "a=é", "/", "a=1&amp;b=2"]).prop_map(String::from),
            if dict().new.is_empty() { 1 } else { 4 } => (phrase(), phrase(), 0u8..3).prop_map(|(a, b, k)| match k { 0 => tame(&a), 1 => format!("{}={}", tame(&a), tame(&b)), _ => format!("x=1&{}={}", tame(&a), tame(&b)) }),
        ]),
    )
        .prop_map(|(s, h, p, segs, slash, q)| {
            let mut u = format!("{s}://{h}");
            if let Some(p) = p {
                u += &format!(":{p}");
            }
            for x in &segs {
                u += "/";
                u += x;
            }
            if slash {
                u += "/";
            }
            if let Some(q) = q {
                u += "?";
                u += &q;
            }
            url::Url::parse(&u).expect("url").to_string()
        })
        .boxed();
    Kept(2, prop_oneof![20 => url, 1 => Recalled(2)].boxed()).boxed()
}

/// Authorization endpoints: custom schemes and https URLs.
pub fn endpoint() -> BoxedStrategy<String> {
    prop_oneof![
        3 => select(vec!["openid4vp:", "openid4vp://", "openid4vp://authorize", "mdoc-openid4vp://", "haip:", "example://h/p/q", "eudi-openid4vp://host:8080/a", "openid4vp:opaque", "openid4vp:///", "openid4vp://h", "openid4vp://h/", "openid4vp://h:443", "openid4vp://h:80/p", "haip://u@h/p", "openid4vp:/a", "openid4vp://h/a/", "x-openid.4vp+a://h"]).prop_map(|s| url::Url::parse(s).unwrap().to_string()),
        3 => http_url(),
    ]
    .boxed()
}

// ---------------------------------------------------------------------------------------------
// DCQL

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum PathEl {
    S(String),
    Null,
    I(u64),
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Val {
    S(String),
    I(i64),
    B(bool),
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct ClaimPlan {
    pub id: Option<String>,
    pub path: Vec<PathEl>,
    pub values: Option<Vec<Val>>,
    pub intent_to_retain: Option<bool>,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct CredPlan {
    pub id: String,
    pub format: String,
    pub meta: Map<String, Json>,
    pub claims: Option<Vec<ClaimPlan>>,
    pub claim_sets: Option<Vec<Vec<String>>>,
    pub authorities: Option<Vec<(String, Vec<String>)>>,
    pub binding: Option<bool>,
    pub multiple: Option<bool>,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct SetPlan {
    pub options: Vec<Vec<String>>,
    pub required: Option<bool>,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct DcqlPlan {
    pub credentials: Vec<CredPlan>,
    pub sets: Option<Vec<SetPlan>>,
}

pub fn format_name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec!["jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt"]).prop_map(String::from),
        2 => select(vec!["vc+sd-jwt", "jwt_vc", "jwt_vp", "ldp", "jwt_vc_json-ld", "mso_mdoc_zk", "DC+SD-JWT", "ac_vp", "Other", "other", "mso-mdoc", "dc sd-jwt"]).prop_map(String::from),
        1 => near(&["jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt"]),
        1 => text(),
    ]
    .boxed()
}

pub fn method_name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec!["ES256", "ES384", "EdDSA", "ES256K", "es256", "ES256 ", "DataIntegrityProof", "Ed25519Signature2018", "-7", "", "alg_values"]).prop_map(String::from),
        1 => text(),
    ]
    .boxed()
}

/// What may be declared for a credential format.
pub fn format_payload() -> BoxedStrategy<Json> {
    prop_oneof![
        4 => vec(method_name(), 0..4).prop_map(|v| json!({ "alg_values": v })),
        4 => vec(method_name(), 0..4).prop_map(|v| json!({ "proof_type_values": v })),
        1 => (vec(method_name(), 0..4), select(vec!["alg_values_supported", "proof_type", "cryptosuite_values", "sd-jwt_alg_values", "issuerauth_alg_values", "AlgValues", "Other", "alg", "algs"])).prop_map(|(v, k)| json!({ k: v })),
        1 => (vec(method_name(), 0..4), near(&["alg_values", "proof_type_values"])).prop_map(|(v, k)| json!({ k: v })),
        1 => (vec(method_name(), 0..4), vec(method_name(), 0..4)).prop_map(|(v, w)| json!({ "alg_values": v, "proof_type_values": w })),
        1 => vec(json_scalar(), 0..3).prop_map(|v| json!({ "alg_values": v })),
        1 => Just(json!({})),
        1 => select(vec!["alg_values", "proof_type_values"]).prop_map(|k| json!(k)),
        1 => json_object().prop_map(Json::Object),
        1 => json_value(),
    ]
    .boxed()
}

pub fn format_map() -> BoxedStrategy<Map<String, Json>> {
    vec((format_name(), format_payload()), 0..5).prop_map(|v| v.into_iter().collect()).boxed()
}

fn path_el() -> BoxedStrategy<PathEl> {
    prop_oneof![
        4 => text().prop_map(PathEl::S),
        1 => Just(PathEl::Null),
        1 => prop_oneof![3 => 0u64..12, 1 => Just(isize::MAX as u64), 1 => any::<u64>()].prop_map(PathEl::I),
    ]
    .boxed()
}

fn val() -> BoxedStrategy<Val> {
    prop_oneof![
        4 => text().prop_map(Val::S),
        2 => prop_oneof![3 => -5i64..100, 1 => any::<i64>()].prop_map(Val::I),
        1 => any::<bool>().prop_map(Val::B),
    ]
    .boxed()
}

pub fn claim_plan() -> BoxedStrategy<ClaimPlan> {
    (
        option::of(text()),
        vec(path_el(), 1..5),
        option::of(vec(val(), 1..4)),
        option::of(any::<bool>()),
    )
        .prop_map(|(id, path, values, intent_to_retain)| ClaimPlan {
            id,
            path,
            values,
            intent_to_retain,
        })
        .boxed()
}

pub fn cred_plan() -> BoxedStrategy<CredPlan> {
    (
        prop_oneof![3 => ident(), 1 => text()],
        format_name(),
        json_object(),
        option::of(vec(claim_plan(), 1..4)),
        option::of(vec(vec(ident(), 0..3), 1..3)),
        option::of(vec(
            (
                prop_oneof![
                    3 => select(vec!["aki", "etsi_tl", "openid_federation"]).prop_map(String::from),
                    1 => select(vec!["Aki", "etsi-tl", "openidFederation", "other", "Other", "openid_fed", "authority_key_identifier", "trusted_list"]).prop_map(String::from),
                    1 => near(&["aki", "etsi_tl", "openid_federation"]),
                    1 => text(),
                ],
                vec(text(), 1..3),
            ),
            1..3,
        )),
        option::of(any::<bool>()),
        option::of(any::<bool>()),
    )
        .prop_map(
            |(id, format, meta, claims, claim_sets, authorities, binding, multiple)| CredPlan {
                id,
                format,
                meta,
                claims,
                claim_sets,
                authorities,
                binding,
                multiple,
            },
        )
        .boxed()
}

pub fn dcql_plan() -> BoxedStrategy<DcqlPlan> {
    (
        vec(cred_plan(), 1..4),
        option::of(vec(
            (vec(vec(ident(), 0..3), 1..3), option::of(any::<bool>()))
                .prop_map(|(options, required)| SetPlan { options, required }),
            1..3,
        )),
    )
        .prop_map(|(credentials, sets)| DcqlPlan { credentials, sets })
        .boxed()
}

/// A small query, where DCQL is not what is tested.
pub fn small_dcql() -> BoxedStrategy<DcqlPlan> {
    vec(
        (ident(), format_name(), option::of(vec(claim_plan(), 1..2))).prop_map(
            |(id, format, claims)| CredPlan {
                id,
                format,
                meta: Map::new(),
                claims,
                claim_sets: None,
                authorities: None,
                binding: None,
                multiple: None,
            },
        ),
        1..3,
    )
    .prop_map(|credentials| DcqlPlan {
        credentials,
        sets: None,
    })
    .boxed()
}

pub fn nev<T>(v: Vec<T>) -> NonEmptyVec<T> {
    NonEmptyVec::try_from(v).ok().expect("generated non-empty")
}

/// The documented names of the trusted-authority types.
pub fn authority(s: &str) -> TrustedAuthorityType {
    match s {
        "aki" => TrustedAuthorityType::Aki,
        "etsi_tl" => TrustedAuthorityType::EtsiTl,
        "openid_federation" => TrustedAuthorityType::OpenidFederation,
        o => TrustedAuthorityType::Other(o.to_string()),
    }
}

/// The documented names of the credential formats.
pub fn designation(s: &str) -> ClaimFormatDesignation {
    match s {
        "jwt_vc_json" => ClaimFormatDesignation::JwtVcJson,
        "ldp_vc" => ClaimFormatDesignation::LdpVc,
        "mso_mdoc" => ClaimFormatDesignation::MsoMDoc,
        "dc+sd-jwt" => ClaimFormatDesignation::DcSdJwt,
        o => ClaimFormatDesignation::Other(o.to_string()),
    }
}

impl ClaimPlan {
    pub fn lib(&self) -> DcqlCredentialClaimsQuery {
        let mut c = DcqlCredentialClaimsQuery::new(nev(self
            .path
            .iter()
            .map(|p| match p {
                PathEl::S(s) => DcqlCredentialClaimsQueryPath::String(s.clone()),
                PathEl::Null => DcqlCredentialClaimsQueryPath::Null,
                PathEl::I(i) => DcqlCredentialClaimsQueryPath::Integer(*i as usize),
            })
            .collect()));
        c.set_id(self.id.clone());
        c.set_values(self.values.as_ref().map(|v| {
            nev(v
                .iter()
                .map(|x| match x {
                    Val::S(s) => DcqlCredentialClaimsQueryValue::String(s.clone()),
                    Val::I(i) => DcqlCredentialClaimsQueryValue::Integer(*i as isize),
                    Val::B(b) => DcqlCredentialClaimsQueryValue::Boolean(*b),
                })
                .collect())
        }));
        c.set_intent_to_retain(self.intent_to_retain);
        c
    }

    pub fn json(&self) -> Json {
        let mut o = Map::new();
        if let Some(id) = &self.id {
            o.insert("id".into(), id.clone().into());
        }
        o.insert(
            "path".into(),
            self.path
                .iter()
                .map(|p| match p {
                    PathEl::S(s) => Json::from(s.clone()),
                    PathEl::Null => Json::Null,
                    PathEl::I(i) => Json::from(*i),
                })
                .collect::<Vec<_>>()
                .into(),
        );
        if let Some(v) = &self.values {
            o.insert(
                "values".into(),
                v.iter()
                    .map(|x| match x {
                        Val::S(s) => Json::from(s.clone()),
                        Val::I(i) => Json::from(*i),
                        Val::B(b) => Json::from(*b),
                    })
                    .collect::<Vec<_>>()
                    .into(),
            );
        }
        if let Some(b) = self.intent_to_retain {
            o.insert("intent_to_retain".into(), b.into());
        }
        o.into()
    }
}

impl CredPlan {
    pub fn lib(&self) -> DcqlCredentialQuery {
        let mut c = DcqlCredentialQuery::new(self.id.clone(), designation(&self.format));
        c.set_meta(self.meta.clone());
        c.set_claims(
            self.claims
                .as_ref()
                .map(|v| nev(v.iter().map(ClaimPlan::lib).collect())),
        );
        c.set_claim_sets(self.claim_sets.clone().map(nev));
        c.set_trusted_authorities(self.authorities.as_ref().map(|v| {
            nev(v
                .iter()
                .map(|(t, vs)| TrustedAuthoritiesQuery::new(authority(t), nev(vs.clone())))
                .collect())
        }));
        c.set_require_cryptographic_holder_binding(self.binding);
        c.set_multiple(self.multiple);
        c
    }

    pub fn json(&self) -> Json {
        let mut o = Map::new();
        o.insert("id".into(), self.id.clone().into());
        o.insert("format".into(), self.format.clone().into());
        o.insert("meta".into(), Json::Object(self.meta.clone()));
        if let Some(v) = &self.claims {
            o.insert(
                "claims".into(),
                v.iter().map(ClaimPlan::json).collect::<Vec<_>>().into(),
            );
        }
        if let Some(v) = &self.claim_sets {
            o.insert("claim_sets".into(), json!(v));
        }
        if let Some(v) = &self.authorities {
            o.insert(
                "trusted_authorities".into(),
                v.iter()
                    .map(|(t, vs)| json!({"type": t, "values": vs}))
                    .collect::<Vec<_>>()
                    .into(),
            );
        }
        if let Some(b) = self.binding {
            o.insert("require_cryptographic_holder_binding".into(), b.into());
        }
        if let Some(b) = self.multiple {
            o.insert("multiple".into(), b.into());
        }
        o.into()
    }
}

impl SetPlan {
    pub fn lib(&self) -> DcqlCredentialSetQuery {
        let mut s = DcqlCredentialSetQuery::new(nev(self.options.clone()));
        s.set_required(self.required);
        s
    }
    pub fn json(&self) -> Json {
        let mut o = Map::new();
        o.insert("options".into(), json!(self.options));
        if let Some(b) = self.required {
            o.insert("required".into(), b.into());
        }
        o.into()
    }
}

impl DcqlPlan {
    pub fn lib(&self) -> DcqlQuery {
        let mut q = DcqlQuery::new(nev(self.credentials.iter().map(CredPlan::lib).collect()));
        q.set_credential_sets(
            self.sets
                .as_ref()
                .map(|v| nev(v.iter().map(SetPlan::lib).collect())),
        );
        q
    }

    pub fn json(&self) -> Json {
        let mut o = Map::new();
        o.insert(
            "credentials".into(),
            self.credentials
                .iter()
                .map(CredPlan::json)
                .collect::<Vec<_>>()
                .into(),
        );
        if let Some(v) = &self.sets {
            o.insert(
                "credential_sets".into(),
                v.iter().map(SetPlan::json).collect::<Vec<_>>().into(),
            );
        }
        o.into()
    }
}
