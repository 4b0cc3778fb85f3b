//! C28: the bundled HTTP client transmits requests and answers faithfully.
//!
//! The client talks to a hand-written HTTP/1.1 server on a loopback address of its own; what the
//! server read and wrote is the oracle.
use std::{
    collections::BTreeMap,
    net::{Ipv4Addr, SocketAddr},
    sync::{
        atomic::{AtomicU32, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

use futures::future::join_all;
use openid4vp::core::util::{AsyncHttpClient, ReqwestClient};
use proptest::{collection::vec, option, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use tokio::{
    io::{AsyncReadExt, AsyncWriteExt},
    net::{TcpListener, TcpStream},
};

use crate::{ensure, ensure_eq, fail, fw::*};

const METHODS: &[&str] = &["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "PURGE", "M-SEARCH"];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Body {
    piece: Vec<u8>,
    times: u16,
}

impl Body {
    fn bytes(&self) -> Vec<u8> {
        self.piece.repeat(self.times as usize)
    }
}

fn body() -> BoxedStrategy<Body> {
    let piece = prop_oneof![
        2 => vec(any::<u8>(), 0..40),
        1 => select(vec![b"{\"redirect_uri\":\"https://verifier.example\"}".to_vec(), b"response=a.b.c&state=%00".to_vec(), vec![0], vec![0xff, 0xfe, 0x0d, 0x0a], b"\r\n\r\n".to_vec(), b"0\r\n\r\n".to_vec(), b"\x1f\x8b\x08\x00".to_vec(), "\u{feff}é漢🦀".as_bytes().to_vec()]),
    ];
    (piece, prop_oneof![1 => Just(0u16), 6 => Just(1u16), 3 => 2u16..40, 1 => prop_oneof![30 => 40u16..6000, 1 => Just(60_000u16)]]).prop_map(|(piece, times)| Body { piece, times }).boxed()
}

type Headers = Vec<(String, Vec<u8>)>;

fn value() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => Just(vec![]),
        4 => "[!-~]([ -~\t]{0,20}[!-~])?".prop_map(String::into_bytes),
        1 => vec(prop_oneof![0x21u8..0x7f, 0x80u8..=0xff], 1..12),
        1 => "[a-z]{60}".prop_map(|s: String| s.repeat(30).into_bytes()),
    ]
    .boxed()
}

fn headers(names: &'static [&'static str]) -> BoxedStrategy<Headers> {
    vec((prop_oneof![2 => select(names.to_vec()).prop_map(String::from), 1 => "x-[a-z0-9!#$%&'*+.^_`|~-]{1,10}".boxed()], value()), 0..7).boxed()
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Framing {
    Length,
    Chunked(u16),
    Close,
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum End {
    Whole,
    /// So many 1/65536ths of the bytes before the last one are sent.
    Cut(u16),
    /// Cut inside the status line or the headers.
    CutHead(u16),
    NoAnswer,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Exchange {
    method: u8,
    path: String,
    query: Option<String>,
    headers: Headers,
    body: Body,
    status: u16,
    reason: String,
    answer_headers: Headers,
    answer: Body,
    framing: Framing,
    interim: bool,
    http10: bool,
    close: bool,
    end: End,
    pieces: u8,
    /// Milliseconds the server waits before the answer and before each further piece of it.
    waits: (u16, u16),
}

fn status() -> BoxedStrategy<u16> {
    prop_oneof![4 => Just(200u16), 2 => select(vec![201u16, 202, 204, 205, 206, 226, 299]), 2 => select(vec![300u16, 301, 302, 303, 304, 307, 308]), 3 => select(vec![400u16, 401, 403, 404, 407, 408, 410, 418, 421, 425, 429, 451]), 2 => select(vec![500u16, 502, 503, 504, 599]), 1 => 200u16..1000].boxed()
}

fn exchange() -> BoxedStrategy<Exchange> {
    let request = (
        prop_oneof![3 => 0u8..2, 1 => 0u8..METHODS.len() as u8],
        "(/([A-Za-z0-9_~!$&()*+,;=:@-]|%[2-7][0-9A-D]|%C3%A9){0,8}){0,3}".prop_filter("dot segments", |p: &String| !p.to_lowercase().contains("%2e")),
        option::weighted(0.5, "([A-Za-z0-9._~!$&()*+,;=:@/?-]|%[0-9A-F][0-9A-F]){0,20}"),
        headers(&["accept", "authorization", "content-type", "cookie", "prefer", "referer", "user-agent", "accept-language", "accept-encoding", "if-none-match", "origin", "range", "x-request-id"]),
        body(),
    );
    let answer = (
        status(),
        "[ -~]{0,12}",
        headers(&["content-type", "content-encoding", "cache-control", "etag", "date", "set-cookie", "server", "www-authenticate", "retry-after", "vary", "link", "x-request-id", "content-disposition"]),
        body(),
        prop_oneof![4 => Just(Framing::Length), 3 => (1u16..2000).prop_map(Framing::Chunked), 2 => Just(Framing::Close)],
        (prop::bool::weighted(0.1), prop::bool::weighted(0.1), prop::bool::weighted(0.3)),
        prop_oneof![12 => Just(End::Whole), 4 => any::<u16>().prop_map(End::Cut), 1 => any::<u16>().prop_map(End::CutHead), 1 => Just(End::NoAnswer)],
        1u8..5,
        prop_oneof![150 => Just((0u16, 0u16)), 1 => (0u16..120, 0u16..40)],
    );
    (request, answer)
        .prop_map(|((method, path, query, headers, body), (status, reason, answer_headers, answer, framing, (interim, http10, close), end, pieces, waits))| {
            let framing = match framing {
                Framing::Chunked(_) if http10 => Framing::Close,
                f => f,
            };
            let end = match end {
                End::Cut(_) if framing == Framing::Close => End::Whole,
                e => e,
            };
            Exchange { method, path, query, headers, body, status, reason: reason.trim().into(), answer_headers, answer, framing, interim, http10, close, end, pieces, waits }
        })
        .boxed()
}

impl Exchange {
    fn method(&self) -> &'static str {
        METHODS[self.method as usize % METHODS.len()]
    }
    fn target(&self, i: usize) -> String {
        let mut t = format!("/e{i}{}", self.path);
        if let Some(q) = &self.query {
            t += "?";
            t += q;
        }
        t
    }
    fn bodyless(&self) -> bool {
        self.method() == "HEAD" || matches!(self.status, 204 | 304)
    }
    fn closes(&self) -> bool {
        self.close || self.http10 || self.framing == Framing::Close || self.end != End::Whole
    }
    /// Status line and headers, the headers as the caller should see them, and the framed body.
    fn wire(&self) -> (Vec<u8>, Headers, Vec<u8>) {
        let mut head = vec![];
        if self.interim && !self.http10 {
            head.extend(b"HTTP/1.1 103 Early Hints\r\nlink: </a>\r\n\r\n");
        }
        let body = self.answer.bytes();
        head.extend(format!("HTTP/1.{} {} {}\r\n", if self.http10 { 0 } else { 1 }, self.status, self.reason).as_bytes());
        let mut all = self.answer_headers.clone();
        let framed = match self.framing {
            _ if self.bodyless() => {
                if self.method() == "HEAD" {
                    all.push(("content-length".into(), body.len().to_string().into_bytes()));
                }
                vec![]
            }
            Framing::Length => {
                all.push(("content-length".into(), body.len().to_string().into_bytes()));
                body
            }
            Framing::Chunked(n) => {
                all.push(("transfer-encoding".into(), b"chunked".to_vec()));
                let mut b = vec![];
                for c in body.chunks(n as usize) {
                    b.extend(format!("{:x}\r\n", c.len()).as_bytes());
                    b.extend(c);
                    b.extend(b"\r\n");
                }
                b.extend(b"0\r\n\r\n");
                b
            }
            Framing::Close => body,
        };
        if self.closes() {
            all.push(("connection".into(), b"close".to_vec()));
        }
        for (k, v) in &all {
            head.extend(k.as_bytes());
            head.extend(b": ");
            head.extend(v);
            head.extend(b"\r\n");
        }
        head.extend(b"\r\n");
        (head, all, framed)
    }
    /// What the server writes, whether that is a whole answer, and the headers of the answer.
    fn written(&self) -> (Vec<u8>, bool, Headers) {
        let (mut head, headers, framed) = self.wire();
        match self.end {
            End::NoAnswer => (vec![], false, headers),
            End::CutHead(f) => {
                head.truncate((head.len() - 1) * f as usize / 65536);
                (head, false, headers)
            }
            End::Cut(f) if !framed.is_empty() => {
                head.extend(&framed[..framed.len() * f as usize / 65536]);
                (head, false, headers)
            }
            _ => {
                head.extend(framed);
                (head, true, headers)
            }
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    exchanges: Vec<Exchange>,
    together: bool,
}

fn plan(_: Tier) -> BoxedStrategy<Plan> {
    (vec(exchange(), 1..5), any::<bool>()).prop_map(|(exchanges, together)| Plan { exchanges, together }).boxed()
}

// ---------------------------------------------------------------------------------------------
// the server

#[derive(Debug, Clone)]
struct Received {
    method: String,
    target: String,
    headers: Headers,
    body: Vec<u8>,
}

async fn read_request(s: &mut TcpStream, buf: &mut Vec<u8>) -> Option<Received> {
    let mut chunk = [0u8; 8192];
    let end = loop {
        if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break i;
        }
        match s.read(&mut chunk).await {
            Ok(0) | Err(_) => return None,
            Ok(n) => buf.extend(&chunk[..n]),
        }
    };
    let head = buf[..end].to_vec();
    let mut lines = head.split(|b| *b == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l));
    let first = String::from_utf8_lossy(lines.next()?).into_owned();
    let mut words = first.split(' ');
    let (method, target) = (words.next()?.to_string(), words.next()?.to_string());
    let mut headers = vec![];
    for l in lines {
        let i = l.iter().position(|b| *b == b':')?;
        headers.push((String::from_utf8_lossy(&l[..i]).to_lowercase(), l[i + 1..].trim_ascii().to_vec()));
    }
    buf.drain(..end + 4);
    let get = |n: &str| headers.iter().find(|(k, _): &&(String, Vec<u8>)| k == n).map(|(_, v)| v.clone());
    let mut body = vec![];
    if get("transfer-encoding").is_some_and(|v| v.eq_ignore_ascii_case(b"chunked")) {
        loop {
            while !buf.windows(2).any(|w| w == b"\r\n") {
                match s.read(&mut chunk).await {
                    Ok(0) | Err(_) => return None,
                    Ok(n) => buf.extend(&chunk[..n]),
                }
            }
            let i = buf.windows(2).position(|w| w == b"\r\n")?;
            let n = usize::from_str_radix(std::str::from_utf8(&buf[..i]).ok()?.split(';').next()?.trim(), 16).ok()?;
            buf.drain(..i + 2);
            while buf.len() < n + 2 {
                match s.read(&mut chunk).await {
                    Ok(0) | Err(_) => return None,
                    Ok(k) => buf.extend(&chunk[..k]),
                }
            }
            body.extend(buf.drain(..n));
            buf.drain(..2);
            if n == 0 {
                break;
            }
        }
    } else if let Some(n) = get("content-length") {
        let n: usize = std::str::from_utf8(&n).ok()?.parse().ok()?;
        while buf.len() < n {
            match s.read(&mut chunk).await {
                Ok(0) | Err(_) => return None,
                Ok(k) => buf.extend(&chunk[..k]),
            }
        }
        body = buf.drain(..n).collect();
    }
    Some(Received { method, target, headers, body })
}

async fn pause(ms: u16) {
    if ms > 0 {
        tokio::time::sleep(Duration::from_millis(ms as u64)).await;
    }
}

async fn serve(mut s: TcpStream, plan: Arc<Plan>, seen: Arc<Mutex<Vec<(usize, Received)>>>) {
    let mut buf = vec![];
    let _ = s.set_nodelay(true);
    while let Some(r) = read_request(&mut s, &mut buf).await {
        let i = r.target.strip_prefix("/e").map(|t| t.chars().take_while(char::is_ascii_digit).collect::<String>()).and_then(|n| n.parse::<usize>().ok());
        let Some(i) = i.filter(|i| *i < plan.exchanges.len()) else {
            seen.lock().unwrap().push((usize::MAX, r));
            return;
        };
        let e = &plan.exchanges[i];
        seen.lock().unwrap().push((i, r));
        let (bytes, _, _) = e.written();
        pause(e.waits.0).await;
        for (n, piece) in bytes.chunks(bytes.len() / e.pieces as usize + 1).enumerate() {
            if n > 0 {
                pause(e.waits.1).await;
            }
            if s.write_all(piece).await.is_err() {
                return;
            }
            let _ = s.flush().await;
            tokio::task::yield_now().await;
        }
        if e.closes() {
            let _ = s.shutdown().await;
            let mut rest = [0u8; 256];
            while matches!(s.read(&mut rest).await, Ok(n) if n > 0) {}
            return;
        }
    }
}

/// A loopback address no other case of this run uses.
fn address() -> Ipv4Addr {
    static N: AtomicU32 = AtomicU32::new(0);
    let n = N.fetch_add(1, Ordering::SeqCst).wrapping_add(std::process::id().wrapping_mul(40_503));
    Ipv4Addr::from(0x7f01_0001 + (n % 0x00f0_0000))
}

fn by_name(h: &Headers) -> BTreeMap<String, Vec<Vec<u8>>> {
    let mut m: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    for (k, v) in h {
        m.entry(k.to_lowercase()).or_default().push(v.clone());
    }
    m
}

/// Headers a client adds on its own account: those HTTP needs, and that it takes any answer.
const OWN: &[&str] = &["host", "accept", "content-length"];

fn runtime() -> Result<tokio::runtime::Runtime, Fail> {
    tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| Fail::from(e.to_string()))
}

fn same_bytes(got: &[u8], want: &[u8], what: &str) -> Check {
    if got != want {
        ensure_eq!(hex(got), hex(want), "{what}");
    }
    Ok(())
}

const PATIENCE: Duration = Duration::from_secs(45);

fn test(p: &Plan, obs: &mut Obs) -> Check {
    let rt = runtime()?;
    let p = Arc::new(p.clone());
    let seen = Arc::new(Mutex::new(vec![]));
    let (plan, log) = (p.clone(), seen.clone());
    let (at, results) = rt.block_on(async move {
        let listener = TcpListener::bind((address(), 0)).await.expect("a loopback listener");
        let at: SocketAddr = listener.local_addr().unwrap();
        let shared = plan.clone();
        let server = tokio::spawn(async move {
            while let Ok((s, _)) = listener.accept().await {
                tokio::spawn(serve(s, shared.clone(), log.clone()));
            }
        });
        let client = ReqwestClient::new().expect("the client");
        let calls: Vec<_> = plan
            .exchanges
            .iter()
            .enumerate()
            .map(|(i, e)| {
                let mut b = http::Request::builder().method(e.method()).uri(format!("http://{at}{}", e.target(i)));
                for (k, v) in &e.headers {
                    b = b.header(k.as_str(), &v[..]);
                }
                let request = b.body(e.body.bytes()).expect("a request");
                let client = client.clone();
                async move { tokio::time::timeout(PATIENCE, client.execute(request)).await }
            })
            .collect();
        let mut results = vec![];
        if plan.together {
            results = join_all(calls).await;
        } else {
            for c in calls {
                results.push(c.await);
            }
        }
        server.abort();
        (at, results)
    });
    drop(rt);
    let seen = seen.lock().unwrap().clone();
    if p.together && p.exchanges.len() > 1 {
        obs.label("overlapping exchanges");
    }
    for (i, e) in p.exchanges.iter().enumerate() {
        obs.extra(1);
        let got: Vec<&Received> = seen.iter().filter(|(j, _)| *j == i).map(|(_, r)| r).collect();
        let (_, whole, headers) = e.written();
        ensure!(!got.is_empty(), "exchange {i} never reached the server: {:?}", results[i]);
        // without any answer on a connection in use, HTTP lets a client try again
        if whole || !matches!(e.end, End::NoAnswer) {
            ensure_eq!(got.len(), 1, "requests received for exchange {i}");
        }
        for r in got {
            ensure_eq!(r.method, e.method(), "method received");
            ensure_eq!(r.target, e.target(i), "target received");
            same_bytes(&r.body, &e.body.bytes(), "body received")?;
            let (want, have) = (by_name(&e.headers), by_name(&r.headers));
            for (k, v) in &want {
                ensure_eq!(have.get(k), Some(v), "header {k:?} received");
            }
            for (k, v) in &have {
                if k == "host" {
                    ensure_eq!(v, &vec![at.to_string().into_bytes()], "host");
                }
                if k == "accept" && !want.contains_key(k) {
                    ensure_eq!(v, &vec![b"*/*".to_vec()], "kinds of answer accepted");
                }
                ensure!(want.contains_key(k) || OWN.contains(&k.as_str()), "header {k:?} was not the caller's: {v:?}");
            }
        }
        let Ok(result) = &results[i] else { fail!("exchange {i} did not end within {PATIENCE:?}") };
        match result {
            Ok(r) => {
                ensure!(whole, "an answer cut short was returned: {:?}, {} bytes of body", r.status(), r.body().len());
                ensure_eq!(r.status().as_u16(), e.status, "status");
                let want = if e.bodyless() { vec![] } else { e.answer.bytes() };
                same_bytes(r.body(), &want, "body of the answer")?;
                let have: Headers = r.headers().iter().map(|(k, v)| (k.to_string(), v.as_bytes().to_vec())).collect();
                ensure_eq!(by_name(&have), by_name(&headers), "headers of the answer");
                obs.nontrivial();
                obs.label(match e.status {
                    200..=299 => "2xx",
                    300..=399 => "3xx",
                    400..=499 => "4xx",
                    _ => "5xx and others",
                });
                obs.label(match (e.bodyless(), e.framing) {
                    (true, _) => "no body",
                    (_, Framing::Length) => "length",
                    (_, Framing::Chunked(_)) => "chunked",
                    (_, Framing::Close) => "until close",
                });
            }
            Err(err) => {
                ensure!(!whole, "a whole answer was refused: {err:#}");
                obs.nontrivial();
                obs.label(match e.end {
                    End::Cut(_) => "cut in the body",
                    End::CutHead(_) => "cut in the head",
                    _ => "no answer",
                });
            }
        }
    }
    ensure!(seen.iter().all(|(i, _)| *i != usize::MAX), "the server received a request nobody made: {:?}", seen.iter().find(|(i, _)| *i == usize::MAX));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// servers that cannot be reached or authenticated

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Peer {
    Refuses,
    /// Accepts and closes at once.
    Closes,
    /// Answers with bytes that are not HTTP.
    Garbage(Vec<u8>),
    /// A certificate nobody vouches for, or that an unknown authority issued, for these names,
    /// valid in these years.
    Tls { ca: bool, named: bool, years: (i32, i32) },
    /// Plain HTTP where TLS was asked for.
    Plain,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Unreachable {
    peer: Peer,
    localhost: bool,
    body: Vec<u8>,
}

fn unreachable(_: Tier) -> BoxedStrategy<Unreachable> {
    let peer = prop_oneof![
        1 => Just(Peer::Refuses),
        1 => Just(Peer::Closes),
        3 => vec(any::<u8>(), 1..200).prop_map(Peer::Garbage),
        6 => (any::<bool>(), prop::bool::weighted(0.7), select(vec![(2020, 2090), (2020, 2021), (2080, 2090)])).prop_map(|(ca, named, years)| Peer::Tls { ca, named, years }),
        1 => Just(Peer::Plain),
    ];
    (peer, any::<bool>(), vec(any::<u8>(), 0..40)).prop_map(|(peer, localhost, body)| Unreachable { peer, localhost, body }).boxed()
}

fn tls(ca: bool, name: &str, years: (i32, i32)) -> Result<Arc<tokio_rustls::rustls::ServerConfig>, String> {
    use tokio_rustls::rustls::{
        self,
        pki_types::{PrivateKeyDer, PrivatePkcs8KeyDer},
    };
    let e = |e: &dyn std::fmt::Display| e.to_string();
    let key = rcgen::KeyPair::generate().map_err(|x| e(&x))?;
    let mut params = rcgen::CertificateParams::new(vec![name.to_string()]).map_err(|x| e(&x))?;
    params.not_before = rcgen::date_time_ymd(years.0, 1, 1);
    params.not_after = rcgen::date_time_ymd(years.1, 1, 1);
    let chain = if ca {
        let ca_key = rcgen::KeyPair::generate().map_err(|x| e(&x))?;
        let mut ca_params = rcgen::CertificateParams::new(vec![]).map_err(|x| e(&x))?;
        ca_params.is_ca = rcgen::IsCa::Ca(rcgen::BasicConstraints::Unconstrained);
        let ca_cert = ca_params.self_signed(&ca_key).map_err(|x| e(&x))?;
        let leaf = params.signed_by(&key, &ca_cert, &ca_key).map_err(|x| e(&x))?;
        vec![leaf.der().clone(), ca_cert.der().clone()]
    } else {
        vec![params.self_signed(&key).map_err(|x| e(&x))?.der().clone()]
    };
    let config = rustls::ServerConfig::builder_with_provider(Arc::new(rustls::crypto::ring::default_provider()))
        .with_safe_default_protocol_versions()
        .map_err(|x| e(&x))?
        .with_no_client_auth()
        .with_single_cert(chain, PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(key.serialize_der())))
        .map_err(|x| e(&x))?;
    Ok(Arc::new(config))
}

fn test_unreachable(p: &Unreachable, obs: &mut Obs) -> Check {
    let rt = runtime()?;
    let ip = if p.localhost { Ipv4Addr::LOCALHOST } else { address() };
    let host = if p.localhost { "localhost".to_string() } else { ip.to_string() };
    let config = match &p.peer {
        Peer::Tls { ca, named, years } => Some(tls(*ca, if *named { &host } else { "verifier.example" }, *years)?),
        _ => None,
    };
    let received = Arc::new(Mutex::new(vec![]));
    let (log, peer) = (received.clone(), p.peer.clone());
    let secure = matches!(p.peer, Peer::Tls { .. } | Peer::Plain);
    let body = p.body.clone();
    let taken = received.clone();
    let (result, r) = rt.block_on(async move {
        let listener = TcpListener::bind((ip, 0)).await.expect("a loopback listener");
        let port = listener.local_addr().unwrap().port();
        let server = tokio::spawn(async move {
            if matches!(peer, Peer::Refuses) {
                return;
            }
            while let Ok((mut s, _)) = listener.accept().await {
                let answer = b"HTTP/1.1 200 OK\r\ncontent-length: 2\r\nconnection: close\r\n\r\n{}";
                let mut buf = [0u8; 4096];
                match &peer {
                    Peer::Closes | Peer::Refuses => {}
                    Peer::Plain => {
                        let _ = s.read(&mut buf).await;
                        let _ = s.write_all(answer).await;
                        let _ = s.shutdown().await;
                    }
                    Peer::Garbage(b) => {
                        let _ = s.read(&mut buf).await;
                        let _ = s.write_all(b).await;
                        let _ = s.shutdown().await;
                        while matches!(s.read(&mut buf).await, Ok(n) if n > 0) {}
                    }
                    Peer::Tls { .. } => {
                        let acceptor = tokio_rustls::TlsAcceptor::from(config.clone().unwrap());
                        if let Ok(mut t) = acceptor.accept(s).await {
                            if let Ok(n) = t.read(&mut buf).await {
                                log.lock().unwrap().extend(&buf[..n]);
                                if n > 0 {
                                    let _ = t.write_all(answer).await;
                                    let _ = t.shutdown().await;
                                }
                            }
                        }
                    }
                }
            }
        });
        if matches!(p.peer, Peer::Refuses) {
            tokio::task::yield_now().await;
            tokio::task::yield_now().await;
        }
        let client = ReqwestClient::new().expect("the client");
        let request = http::Request::builder().method("POST").uri(format!("{}://{host}:{port}/response", if secure { "https" } else { "http" })).body(body).expect("a request");
        let r = tokio::time::timeout(PATIENCE, client.execute(request)).await;
        let sent = taken.lock().unwrap().clone();
        if matches!(p.peer, Peer::Tls { .. }) {
            // the server is a working one: a client that does not ask for authentication is served
            let lax = reqwest::Client::builder().use_rustls_tls().danger_accept_invalid_certs(true).build().expect("a client");
            let r = lax.get(format!("https://{host}:{port}/")).send().await;
            if !r.is_ok_and(|r| r.status() == 200) {
                panic!("the harness's TLS server does not work");
            }
        }
        server.abort();
        (r, sent)
    });
    drop(rt);
    obs.nontrivial();
    obs.label(match &p.peer {
        Peer::Refuses => "refused",
        Peer::Closes => "closed",
        Peer::Garbage(_) => "not HTTP",
        Peer::Tls { .. } => "unauthenticated TLS",
        Peer::Plain => "plain HTTP for TLS",
    });
    let Ok(result) = result else { fail!("the call did not end within {PATIENCE:?}") };
    if let Peer::Garbage(b) = &p.peer {
        if b.starts_with(b"HTTP/") {
            return Ok(());
        }
    }
    ensure!(result.is_err(), "an answer from {:?}: {:?}", p.peer, result);
    ensure!(r.is_empty(), "the request was sent to {:?}: {}", p.peer, String::from_utf8_lossy(&r));
    Ok(())
}

fn examples_unreachable() -> Vec<Unreachable> {
    let mut out = vec![];
    for localhost in [false, true] {
        for peer in [Peer::Refuses, Peer::Closes, Peer::Plain, Peer::Garbage(b"220 smtp\r\n".to_vec())] {
            out.push(Unreachable { peer, localhost, body: b"secret".to_vec() });
        }
        for ca in [false, true] {
            for named in [false, true] {
                out.push(Unreachable { peer: Peer::Tls { ca, named, years: (2020, 2090) }, localhost, body: b"secret".to_vec() });
            }
        }
    }
    out
}

/// Servers that take their time, and large messages.
fn examples() -> Vec<Plan> {
    let plain = |body: Body, answer: Body, framing: Framing, pieces: u8, waits: (u16, u16)| Exchange {
        method: 1,
        path: "/slow".into(),
        query: None,
        headers: vec![("content-type".into(), b"application/x-www-form-urlencoded".to_vec())],
        body,
        status: 200,
        reason: "OK".into(),
        answer_headers: vec![],
        answer,
        framing,
        interim: false,
        http10: false,
        close: false,
        end: End::Whole,
        pieces,
        waits,
    };
    let small = || Body { piece: b"{\"redirect_uri\":\"https://verifier.example/\"}".to_vec(), times: 1 };
    let large = |n: u16| Body { piece: (0..=255).collect(), times: n };
    vec![
        Plan {
            exchanges: vec![
                plain(small(), small(), Framing::Length, 1, (31_000, 0)),
                plain(small(), small(), Framing::Length, 3, (0, 11_000)),
                plain(small(), large(40), Framing::Chunked(300), 3, (3_000, 11_000)),
                plain(small(), small(), Framing::Close, 2, (11_000, 11_000)),
            ],
            together: true,
        },
        Plan {
            exchanges: vec![
                plain(large(45_000), small(), Framing::Length, 1, (0, 0)),
                plain(small(), large(45_000), Framing::Length, 4, (0, 0)),
                plain(large(9_000), large(9_000), Framing::Chunked(65_535), 4, (0, 0)),
                plain(small(), large(45_000), Framing::Close, 4, (0, 0)),
            ],
            together: false,
        },
    ]
}

pub fn prop() -> Prop {
    for v in ["http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"] {
        std::env::remove_var(v);
    }
    Prop {
        id: "C28",
        level: "exploration",
        assumptions: &["HTTP/1.1 and 1.0 over loopback, and TLS with certificates outside the built-in roots; no redirects with a location (the underlying client follows those)"],
        subs: vec![
            Box::new(SubCheck { name: "exchanges", rule: "one to four exchanges with one client, one after another or overlapping; non-trivial: an exchange whose answer or error was compared", quick: 10_000, thorough: 300_000, strat: plan, examples, test }),
            Box::new(SubCheck { name: "peers", rule: "a server that refuses, closes, does not speak HTTP or cannot be authenticated; non-trivial: all", quick: 400, thorough: 10_000, strat: unreachable, examples: examples_unreachable, test: test_unreachable }),
        ],
    }
}
