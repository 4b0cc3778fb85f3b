//! A dictionary for the generators, taken from the sources under test.
//!
//! As coverage-guided fuzzers do, the generators mix the literals of the code under test into what
//! they produce: texts, names, characters and sizes.  Literals that the sources did not have when
//! this harness was written (`dict_base.json`, by file and number of occurrences) are preferred,
//! since the code that was added or changed is what a check is run for.  Only inputs are chosen
//! this way; what is expected of the library never depends on its sources.
//!
//! `VP_WORDS` (separated by `|`; numbers are taken as numbers) adds further preferred words.
use std::{
    collections::{BTreeMap, BTreeSet},
    path::{Path, PathBuf},
    sync::OnceLock,
};

use serde::{Deserialize, Serialize};

/// The tokens of one file that are of use, with the number of their occurrences.
#[derive(Debug, Default, Clone, Serialize, Deserialize)]
pub struct Tokens {
    pub words: BTreeMap<String, u32>,
    pub numbers: BTreeMap<u64, u32>,
    pub names: BTreeSet<String>,
}

#[derive(Debug, Default)]
pub struct Dict {
    /// Words the sources did not have.
    pub new: Vec<String>,
    /// Those of them that resemble no word or identifier the sources had.
    pub foreign: Vec<String>,
    /// Words the sources had, of moderate length.
    pub old: Vec<String>,
    /// Numbers the sources did not have.
    pub sizes: Vec<u64>,
}

fn number(t: &str) -> Option<u64> {
    let t: String = t.chars().filter(|c| *c != '_').collect();
    let (digits, radix) = match t.get(..2) {
        Some("0x") => (&t[2..], 16),
        Some("0b") => (&t[2..], 2),
        Some("0o") => (&t[2..], 8),
        _ => (&t[..], 10),
    };
    let end = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());
    u64::from_str_radix(&digits[..end], radix).ok()
}

fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some('0') => out.push('\0'),
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('u') => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').filter(|c| *c != '_').collect();
                out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('\n') => {
                while it.peek().is_some_and(|c| c.is_whitespace()) {
                    it.next();
                }
            }
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}

#[derive(Debug, PartialEq)]
enum Tok {
    Word(String),
    Number(u64),
    Name(String),
    Sign(char),
}

fn lex(text: &str) -> Vec<Tok> {
    let c: Vec<char> = text.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    while i < c.len() {
        let ch = c[i];
        if ch == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if ch == '/' && at(i + 1) == '*' {
            let mut depth = 1;
            i += 2;
            while i < c.len() && depth > 0 {
                if c[i] == '/' && at(i + 1) == '*' {
                    depth += 1;
                    i += 1;
                } else if c[i] == '*' && at(i + 1) == '/' {
                    depth -= 1;
                    i += 1;
                }
                i += 1;
            }
        } else if ch == '"' {
            let start = i + 1;
            i = start;
            while i < c.len() && c[i] != '"' {
                i += if c[i] == '\\' { 2 } else { 1 };
            }
            out.push(Tok::Word(unescape(&c[start..i.min(c.len())].iter().collect::<String>())));
            i += 1;
        } else if ch == 'r' && (at(i + 1) == '"' || at(i + 1) == '#' && matches!(at(i + 2), '"' | '#')) {
            let mut j = i + 1;
            while at(j) == '#' {
                j += 1;
            }
            let hashes = j - i - 1;
            let start = j + 1;
            j = start;
            while j < c.len() && !(c[j] == '"' && (1..=hashes).all(|k| at(j + k) == '#')) {
                j += 1;
            }
            out.push(Tok::Word(c[start..j.min(c.len())].iter().collect()));
            i = j + 1 + hashes;
        } else if ch == '\'' {
            if at(i + 1) == '\\' {
                let start = i + 1;
                i = start + 2;
                while i < c.len() && c[i] != '\'' {
                    i += 1;
                }
                out.push(Tok::Word(unescape(&c[start..i.min(c.len())].iter().collect::<String>())));
                i += 1;
            } else if at(i + 2) == '\'' {
                out.push(Tok::Word(at(i + 1).to_string()));
                i += 3;
            } else {
                i += 1;
            }
        } else if ch.is_ascii_digit() {
            let start = i;
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            out.extend(number(&c[start..i].iter().collect::<String>()).map(Tok::Number));
        } else if ch.is_alphabetic() || ch == '_' {
            let start = i;
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            let n: String = c[start..i].iter().collect();
            // the prefixes of byte and C strings
            if !(matches!(n.as_str(), "b" | "c") && at(i) == '"' || n == "b" && at(i) == '\'') {
                out.push(Tok::Name(n));
            }
        } else {
            if !ch.is_whitespace() {
                out.push(Tok::Sign(ch));
            }
            i += 1;
        }
    }
    out
}

/// Drops the modules and items for tests.
fn without_tests(t: Vec<Tok>) -> Vec<Tok> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        let is = |k: usize, n: &str| matches!(t.get(i + k), Some(Tok::Name(x)) if x == n);
        let sign = |k: usize, s: char| t.get(i + k) == Some(&Tok::Sign(s));
        if sign(0, '#') && sign(1, '[') && is(2, "cfg") && sign(3, '(') && is(4, "test") {
            let mut depth = 0;
            while i < t.len() {
                match t[i] {
                    Tok::Sign('{') => depth += 1,
                    Tok::Sign('}') => {
                        depth -= 1;
                        if depth == 0 {
                            break;
                        }
                    }
                    Tok::Sign(';') if depth == 0 => break,
                    _ => {}
                }
                i += 1;
            }
            i += 1;
            continue;
        }
        out.push(match &t[i] {
            Tok::Word(w) => Tok::Word(w.clone()),
            Tok::Number(n) => Tok::Number(*n),
            Tok::Name(n) => Tok::Name(n.clone()),
            Tok::Sign(c) => Tok::Sign(*c),
        });
        i += 1;
    }
    out
}

pub fn tokens(text: &str) -> Tokens {
    let t = without_tests(lex(text));
    let mut out = Tokens::default();
    let mut number = |n: u64| *out.numbers.entry(n).or_default() += 1;
    let mut words = vec![];
    for i in 0..t.len() {
        match &t[i] {
            Tok::Word(w) => words.push(w.clone()),
            Tok::Number(n) => {
                number(*n);
                // 1 << 14, 16 * 1024
                match &t[i + 1..t.len().min(i + 4)] {
                    [Tok::Sign('<'), Tok::Sign('<'), Tok::Number(m)] if *m < 63 => number(n << m),
                    [Tok::Sign('*'), Tok::Number(m), ..] => number(n.saturating_mul(*m)),
                    _ => {}
                }
            }
            Tok::Name(n) => {
                match n.as_str() {
                    "u8" | "i8" => number(256),
                    "u16" | "i16" => number(65536),
                    _ => {}
                }
                out.names.insert(n.clone());
            }
            Tok::Sign(_) => {}
        }
    }
    for w in words {
        // what a format string leaves as it is
        let mut pieces = vec![];
        if w.contains('{') && w.contains('}') && !w.trim_start().starts_with(['{', '[']) || w.starts_with("{}") {
            for (i, p) in w.split('{').enumerate() {
                pieces.push(if i == 0 { p.to_string() } else { p.split_once('}').map_or(p, |x| x.1).to_string() });
            }
        } else {
            pieces.push(w);
        }
        for p in pieces {
            if !p.is_empty() && p.len() <= 200 {
                *out.words.entry(p).or_default() += 1;
            }
        }
    }
    out
}

fn files(dir: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}

pub fn scan(root: &Path) -> BTreeMap<String, Tokens> {
    let mut list = vec![];
    files(&root.join("src"), &mut list);
    files(&root.join("openid4vp-frontend").join("src"), &mut list);
    list.into_iter()
        .filter_map(|p| {
            let text = std::fs::read_to_string(&p).ok()?;
            Some((p.strip_prefix(root).ok()?.display().to_string(), tokens(&text)))
        })
        .collect()
}

fn plain(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).flat_map(char::to_lowercase).collect()
}

fn build() -> Dict {
    let base: BTreeMap<String, Tokens> = serde_json::from_str(include_str!("../dict_base.json")).expect("dictionary");
    let root = std::env::var("VP_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
    let mirror = root.join("build").join(if cfg!(feature = "jwe") { "mirror-jwe" } else { "mirror" });
    let now = scan(&mirror);
    let known: BTreeSet<String> = base
        .values()
        .flat_map(|t| t.words.keys().chain(&t.names))
        .flat_map(|w| w.split(' ').map(plain).chain([plain(w)]).collect::<Vec<_>>())
        .collect();
    let (mut new, mut sizes) = (BTreeSet::new(), BTreeSet::new());
    let none = Tokens::default();
    for (file, t) in &now {
        let b = base.get(file).unwrap_or(&none);
        new.extend(t.words.iter().filter(|(w, n)| b.words.get(*w).copied().unwrap_or(0) < **n).map(|x| x.0.clone()));
        sizes.extend(t.numbers.iter().filter(|(w, n)| b.numbers.get(w).copied().unwrap_or(0) < **n).map(|x| *x.0));
    }
    for w in std::env::var("VP_WORDS").unwrap_or_default().split('|').filter(|w| !w.is_empty()) {
        match w.parse() {
            Ok(n) => {
                sizes.insert(n);
            }
            Err(_) => {
                new.insert(w.to_string());
            }
        }
    }
    let old: BTreeSet<String> = base.values().flat_map(|t| t.words.keys()).filter(|w| w.len() <= 40 && w.matches(' ').count() < 2).cloned().collect();
    // error messages are no input
    let new: Vec<String> = new.into_iter().filter(|w| w.matches(' ').count() < 3).collect();
    Dict {
        foreign: new.iter().filter(|w| !known.contains(&plain(w))).cloned().collect(),
        new,
        old: old.into_iter().collect(),
        sizes: sizes.into_iter().collect(),
    }
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(build)
}
