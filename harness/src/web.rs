//! HTTP streams over a loopback server (C18).
use std::collections::HashMap;
use std::io::{Read, Seek};
use std::num::NonZeroUsize;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use stream_download::http::{Client, ClientResponse, ContentType, HttpStream, HttpStreamError};
use stream_download::source::{DecodeError, SourceStream};
use stream_download::storage::StorageProvider;
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::TempStorageProvider;
use stream_download::{Settings, StreamDownload, StreamInitializationError};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio_util::sync::CancellationToken;

use crate::netchecks::{Driver, Mime, ROp, Store, content, rops, store, workers};
use crate::runner::{AnyCheck, Check, Outcome};

pub const ALL: &[&dyn AnyCheck] = &[&C18];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Framing {
    Length,
    Chunked,
    /// ends with the connection
    Close,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Accept {
    Bytes,
    None,
    Absent,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cl {
    Plain,
    Middleware,
    Stream,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum WFault {
    No,
    /// the connection ends after so many body bytes
    Drop(u16),
    /// no more data after so many body bytes
    Stall(u16),
    Status(u16),
    /// closed without a response
    Reset,
    /// no response at all
    Hang,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct WebCase {
    size: u32,
    framing: Framing,
    accept: Accept,
    honours: bool,
    client: Cl,
    mime: Mime,
    extra: Option<Vec<u8>>,
    pieces: Vec<u16>,
    faults: Vec<WFault>,
    ops: Vec<ROp>,
    prefetch: u16,
    batch: u16,
    store: Store,
    /// a range requested from the client itself
    probe: Option<(u16, Option<u16>)>,
}

static C18: Check<WebCase> = Check {
    id: "C18",
    rule: "the server sent more than one piece and the stream was sought in, or the server injected a fault",
    assumptions: &[
        "servers answer range requests with the requested range or ignore it (a resource of unknown length is then only read sequentially)",
        "timing inside the kernel and the HTTP library is not controlled",
    ],
    quick: 60_000,
    thorough: 1_200_000,
    strategy: || {
        let size = prop_oneof![4 => 0u32..300, 2 => 0u32..20_000, 1 => Just(0u32), 1 => 100_000u32..400_000];
        let framing = prop_oneof![6 => Just(Framing::Length), 1 => Just(Framing::Chunked), 1 => Just(Framing::Close)];
        let accept = prop_oneof![2 => Just(Accept::Bytes), 1 => Just(Accept::None), 1 => Just(Accept::Absent)];
        let client = prop_oneof![Just(Cl::Plain), Just(Cl::Middleware), Just(Cl::Stream)];
        let mime = prop_oneof![
            1 => Just(Mime::Missing),
            3 => ("[a-z][a-z0-9]{0,7}", r"[a-z][a-z0-9_.-]{0,7}(\+[a-z]{1,4})?", prop::sample::select(vec!["", "; charset=utf-8", ";codecs=opus"]))
                .prop_map(|(a, b, p)| Mime::Valid(a, b, p.to_string())),
            1 => prop::sample::select(vec!["audio", "/", "audio/", "/mpeg", "aud io/mpeg", "a\\b/c", "audio;mpeg"])
                .prop_map(|s| Mime::Invalid(s.to_string())),
        ];
        let extra = prop::option::of(prop_oneof![
            2 => "[!-~]{1,10}".prop_map(String::into_bytes),
            1 => vec(prop_oneof![0x21u8..0x7f, 0x80u8..=0xff], 1..6)
        ]);
        let pieces = vec(prop_oneof![2 => 1u16..50, 1 => 1u16..8000], 0..4);
        let cut = || prop_oneof![3 => 0u16..200, 1 => any::<u16>()];
        // with seeks, or sequential with failing reconnects
        let mixed = (rops(8), vec(
            prop_oneof![
                8 => Just(WFault::No), 4 => cut().prop_map(WFault::Drop), 1 => cut().prop_map(WFault::Stall),
                1 => status().prop_map(WFault::Status), 1 => Just(WFault::Reset)
            ],
            0..4,
        ));
        let sequential = (
            vec((0u16..300).prop_map(ROp::Read), 0..6),
            cut(),
            vec(
                prop_oneof![
                    2 => Just(WFault::No), 3 => cut().prop_map(WFault::Stall),
                    2 => status().prop_map(WFault::Status), 1 => Just(WFault::Reset), 1 => Just(WFault::Hang)
                ],
                0..3,
            ),
        )
            .prop_map(|(ops, first, mut f)| {
                f.insert(0, WFault::Stall(first));
                (ops, f)
            });
        let probe = prop_oneof![
            3 => Just(None),
            1 => (0u16..400, prop_oneof![1 => Just(None), 1 => Just(Some(0u16)), 2 => (0u16..400).prop_map(Some)]).prop_map(Some),
        ];
        let plan = prop_oneof![
            6 => mixed.prop_map(|(a, b)| (true, a, b)),
            1 => sequential.prop_map(|(a, b)| (false, a, b))
        ];
        (
            (size, framing, accept, any::<bool>(), client),
            (mime, extra, pieces),
            plan,
            (prop_oneof![2 => Just(0u16), 2 => 0u16..400], prop_oneof![1 => 1u16..600, 1 => Just(4096u16)], store(), probe),
        )
            .prop_map(|((size, framing, accept, honours, client), (mime, extra, pieces), (mixed, mut ops, mut faults), (prefetch, batch, store, probe))| {
                let known = framing == Framing::Length;
                let mut honours = honours || (!known && (accept == Accept::Bytes || mixed));
                if !known && (accept != Accept::Bytes || !mixed) {
                    // a stream of unknown length starts over when it reconnects without ranges
                    faults.retain(|f| !matches!(f, WFault::Stall(_) | WFault::Hang));
                }
                if !known && !mixed {
                    faults.clear();
                    honours = true;
                }
                if !honours && !known {
                    ops.retain(|o| matches!(o, ROp::Read(_)));
                }
                // a huge object in tiny pieces takes long
                let pieces = if size > 20_000 { pieces.into_iter().map(|p| p.saturating_add(2000)).collect() } else { pieces };
                WebCase { size, framing, accept, honours, client, mime, extra, pieces, faults, ops, prefetch, batch, store, probe }
            })
            .boxed()
    },
    run: c18,
    case_limit_s: 90,
    shards: 32,
};

/// Error statuses, more often one that means something.
fn status() -> impl Strategy<Value = u16> {
    prop_oneof![
        1 => 400u16..600,
        1 => prop::sample::select(vec![400u16, 401, 403, 404, 405, 408, 409, 410, 412, 413, 416, 425, 429, 451, 500, 501, 502, 503, 504, 511]),
    ]
}

struct Site {
    case: WebCase,
    body: Vec<u8>,
    log: Mutex<Vec<Request>>,
    end: CancellationToken,
}

#[derive(Clone, Debug)]
struct Request {
    range: Option<String>,
    middleware: Option<String>,
    probe: bool,
}

fn sites() -> &'static Mutex<HashMap<u64, Arc<Site>>> {
    static SITES: OnceLock<Mutex<HashMap<u64, Arc<Site>>>> = OnceLock::new();
    SITES.get_or_init(Mutex::default)
}

/// A listener per thread, so that no address runs out of ports.
fn server() -> std::net::SocketAddr {
    static NEXT: AtomicU64 = AtomicU64::new(2);
    thread_local! {
        static ADDR: std::net::SocketAddr = {
            let n = NEXT.fetch_add(1, Ordering::Relaxed) % 250 + 2;
            workers().block_on(async {
                let l = match TcpListener::bind((std::net::Ipv4Addr::new(127, 0, 0, n as u8), 0)).await {
                    Ok(l) => l,
                    Err(_) => TcpListener::bind("127.0.0.1:0").await.expect("loopback listener"),
                };
                let addr = l.local_addr().expect("address");
                tokio::spawn(async move {
                    loop {
                        match l.accept().await {
                            Ok((s, _)) => {
                                let _ = s.set_nodelay(true);
                                tokio::spawn(serve(s));
                            }
                            Err(_) => tokio::time::sleep(Duration::from_millis(5)).await,
                        }
                    }
                });
                addr
            })
        };
    }
    ADDR.with(|a| *a)
}

async fn serve(mut s: TcpStream) {
    let mut head = vec![];
    let mut buf = [0u8; 2048];
    while !head.windows(4).any(|w| w == b"\r\n\r\n") {
        match s.read(&mut buf).await {
            Ok(n) if n > 0 && head.len() < 65536 => head.extend_from_slice(&buf[..n]),
            _ => return,
        }
    }
    let text = String::from_utf8_lossy(&head).into_owned();
    let id = text
        .split(' ')
        .nth(1)
        .and_then(|p| p.strip_prefix("/case/"))
        .and_then(|p| p.trim_end_matches("?probe").parse::<u64>().ok());
    let Some(site) = id.and_then(|id| sites().lock().unwrap().get(&id).cloned()) else { return };
    let end = site.end.clone();
    tokio::select! {
        () = end.cancelled() => {}
        _ = respond(&mut s, &text, &site) => {}
    }
}

fn header<'a>(text: &'a str, name: &str) -> Option<&'a str> {
    text.lines().skip(1).find_map(|l| {
        let (k, v) = l.split_once(':')?;
        k.trim().eq_ignore_ascii_case(name).then(|| v.trim())
    })
}

fn parse_range(v: &str) -> Option<(u64, Option<u64>)> {
    let (a, b) = v.strip_prefix("bytes=")?.split_once('-')?;
    Some((a.parse().ok()?, if b.is_empty() { None } else { Some(b.parse().ok()?) }))
}

fn error_text(case: &WebCase, n: usize, code: u16) -> String {
    format!("ERR-{n}-{code}{}-END-{n}", ".:".repeat(case.size as usize % 7 * 40))
}

async fn respond(s: &mut TcpStream, text: &str, site: &Site) -> std::io::Result<()> {
    let range = header(text, "range").map(String::from);
    let probe = text.lines().next().is_some_and(|l| l.contains("?probe"));
    let n = {
        let mut log = site.log.lock().unwrap();
        let n = log.iter().filter(|r| !r.probe).count();
        log.push(Request { range: range.clone(), middleware: header(text, "x-middleware").map(String::from), probe });
        n
    };
    let case = &site.case;
    let fault = case.faults.get(n).copied().filter(|_| !probe).unwrap_or(WFault::No);
    match fault {
        WFault::Reset => return Ok(()),
        WFault::Hang => {
            std::future::pending::<()>().await;
        }
        WFault::Status(code) => {
            let body = error_text(&site.case, n, code);
            let r = format!(
                "HTTP/1.1 {code} Trouble\r\nConnection: close\r\nContent-Length: {}\r\nAccept-Ranges: bytes\r\n\r\n{body}",
                body.len()
            );
            return s.write_all(r.as_bytes()).await;
        }
        _ => {}
    }
    let len = site.body.len() as u64;
    let (status, part, extra) = match range.as_deref().filter(|_| case.honours).map(parse_range) {
        None => ("200 OK", 0..len, String::new()),
        Some(Some((a, b))) if a < len && b.is_none_or(|b| b >= a) => {
            let e = b.map_or(len, |b| (b + 1).min(len));
            ("206 Partial Content", a..e, format!("Content-Range: bytes {a}-{}/{len}\r\n", e - 1))
        }
        Some(_) => {
            let r = format!("HTTP/1.1 416 Range\r\nConnection: close\r\nContent-Length: 0\r\nContent-Range: bytes */{len}\r\n\r\n");
            return s.write_all(r.as_bytes()).await;
        }
    };
    let mut head = format!("HTTP/1.1 {status}\r\nConnection: close\r\n{extra}").into_bytes();
    match case.framing {
        Framing::Length => head.extend(format!("Content-Length: {}\r\n", part.end - part.start).bytes()),
        Framing::Chunked => head.extend(b"Transfer-Encoding: chunked\r\n"),
        Framing::Close => {}
    }
    match case.accept {
        Accept::Bytes => head.extend(b"Accept-Ranges: bytes\r\n"),
        Accept::None => head.extend(b"accept-ranges: none\r\n"),
        Accept::Absent => {}
    }
    match &case.mime {
        Mime::Missing => {}
        Mime::Valid(a, b, p) => head.extend(format!("Content-Type: {a}/{b}{p}\r\n").bytes()),
        Mime::Invalid(t) => head.extend(format!("Content-Type: {t}\r\n").bytes()),
    }
    if let Some(x) = &case.extra {
        head.extend(b"X-Extra: ");
        head.extend(x);
        head.extend(b"\r\n");
    }
    head.extend(b"\r\n");
    s.write_all(&head).await?;
    let body = &site.body[part.start as usize..part.end as usize];
    // nobody can tell that a stalled stream of unknown length has already delivered everything
    let fault = match fault {
        WFault::Stall(k) if case.framing != Framing::Length && usize::from(k) >= body.len() => WFault::No,
        f => f,
    };
    let stop = match fault {
        WFault::Drop(k) | WFault::Stall(k) => usize::from(k).min(body.len()),
        _ => body.len(),
    };
    let mut at = 0;
    let mut i = 0;
    while at < stop {
        let piece = if case.pieces.is_empty() { stop } else { usize::from(case.pieces[i % case.pieces.len()]).max(1) };
        i += 1;
        let e = (at + piece).min(stop);
        if case.framing == Framing::Chunked {
            let mut v = format!("{:x}\r\n", e - at).into_bytes();
            v.extend(&body[at..e]);
            v.extend(b"\r\n");
            s.write_all(&v).await?;
        } else {
            s.write_all(&body[at..e]).await?;
        }
        at = e;
        if i < 64 {
            tokio::task::yield_now().await;
        }
    }
    match fault {
        WFault::Stall(_) => {
            // until the client goes away or the case ends
            let mut b = [0u8; 16];
            let _ = s.read(&mut b).await;
        }
        WFault::Drop(_) => {}
        _ => {
            if case.framing == Framing::Chunked {
                s.write_all(b"0\r\n\r\n").await?;
            }
            s.shutdown().await?;
            // let the client close first
            let mut b = [0u8; 16];
            let _ = s.read(&mut b).await;
        }
    }
    Ok(())
}

struct Mark(&'static str);
#[async_trait::async_trait]
impl reqwest_middleware::Middleware for Mark {
    async fn handle(
        &self,
        mut req: reqwest::Request,
        ext: &mut http::Extensions,
        next: reqwest_middleware::Next<'_>,
    ) -> reqwest_middleware::Result<reqwest::Response> {
        let old = req.headers().get("x-middleware").and_then(|v| v.to_str().ok()).unwrap_or("").to_string();
        req.headers_mut().insert("x-middleware", format!("{old}{}", self.0).parse().unwrap());
        next.run(req, ext).await
    }
}

type Middle = HttpStream<reqwest_middleware::ClientWithMiddleware>;

fn c18(case: &WebCase) -> Outcome {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    static MARKS: OnceLock<()> = OnceLock::new();
    MARKS.get_or_init(|| {
        Settings::<Middle>::add_default_middleware(Mark("a"));
        Settings::<Middle>::add_default_middleware(Mark("b"));
    });
    let addr = server();
    let id = NEXT.fetch_add(1, Ordering::Relaxed);
    let site = Arc::new(Site {
        case: case.clone(),
        body: content(5, u64::from(case.size)),
        log: Mutex::default(),
        end: CancellationToken::new(),
    });
    sites().lock().unwrap().insert(id, site.clone());
    let url: reqwest::Url = format!("http://{addr}/case/{id}").parse().expect("url");
    let mut out = Outcome::default();
    match case.store {
        Store::Memory => open(case, url, || MemoryStorageProvider, &site, &mut out),
        Store::Temp => open(case, url, TempStorageProvider::new, &site, &mut out),
        Store::Adaptive(n) if case.framing == Framing::Length => open(
            case,
            url,
            || AdaptiveStorageProvider::new(TempStorageProvider::new(), NonZeroUsize::new(usize::from(n).max(1)).unwrap()),
            &site,
            &mut out,
        ),
        Store::Adaptive(_) => open(case, url, TempStorageProvider::new, &site, &mut out),
    }
    requests(case, &site, &mut out);
    if let Some((a, n)) = case.probe {
        let (a, b) = (u64::from(a), n.map(|n| u64::from(a) + u64::from(n)));
        let url = format!("http://{addr}/case/{id}?probe").parse().expect("url");
        match case.client {
            Cl::Middleware => workers().block_on(probe::<reqwest_middleware::ClientWithMiddleware>(url, a, b, &site, &mut out)),
            _ => workers().block_on(probe::<reqwest::Client>(url, a, b, &site, &mut out)),
        }
    }
    site.end.cancel();
    sites().lock().unwrap().remove(&id);
    out
}

/// The range as it is specified for the public `Client` trait: an inclusive end.
async fn probe<C: Client<Url = reqwest::Url>>(url: reqwest::Url, a: u64, b: Option<u64>, site: &Site, out: &mut Outcome) {
    out.class("client probe");
    let res = C::create().get_range(&url, a, b).await;
    let asked = site.log.lock().unwrap().iter().find(|r| r.probe).and_then(|r| r.range.clone());
    let want = format!("bytes={a}-{}", b.map_or(String::new(), |b| b.to_string()));
    if asked.as_deref() != Some(&want) {
        out.problem(format!("the range {a}..={b:?} was requested as {asked:?}"));
    }
    let Ok(res) = res else { return out.problem("the request failed") };
    let len = site.body.len() as u64;
    let end = b.map_or(len, |b| (b + 1).min(len));
    let rejected = site.case.honours && a >= len;
    match res.into_result() {
        Err(_) if rejected => {}
        Ok(_) if rejected => out.problem("an error status is not an error"),
        Err(_) => out.problem("a successful response is an error"),
        Ok(r) => {
            let part = if site.case.honours { &site.body[a as usize..end as usize] } else { &site.body[..] };
            let length = (site.case.framing == Framing::Length).then_some(part.len() as u64);
            if r.content_length() != length {
                out.problem(format!("content length {:?} instead of {length:?}", r.content_length()));
            }
            let mut got = vec![];
            let mut s = r.stream();
            while let Some(item) = futures_util::StreamExt::next(&mut s).await {
                match item {
                    Ok(b) => got.extend_from_slice(&b),
                    Err(_) => return out.problem("the body failed"),
                }
            }
            if got != part {
                out.problem(format!("the body of {} bytes is not {a}..{end}", got.len()));
            }
        }
    }
}

fn settings<S>(case: &WebCase) -> Settings<S> {
    let waits = case.faults.iter().any(|f| matches!(f, WFault::Stall(_) | WFault::Hang));
    Settings::default()
        .prefetch_bytes(u64::from(case.prefetch))
        .batch_write_size(NonZeroUsize::new(usize::from(case.batch).max(1)).unwrap())
        .retry_timeout(if waits { Duration::from_millis(70) } else { Duration::from_secs(3600) })
}

fn open<P: StorageProvider>(case: &WebCase, url: reqwest::Url, p: impl Fn() -> P, site: &Site, out: &mut Outcome) {
    let rt = workers();
    match case.client {
        Cl::Plain => {
            out.class("plain client");
            let made = rt.block_on(StreamDownload::new_http(url, p(), settings(case)));
            opened(case, made, site, out);
        }
        Cl::Middleware => {
            out.class("middleware client");
            let made = rt.block_on(StreamDownload::new_http_with_middleware(url, p(), settings(case)));
            opened(case, made, site, out);
        }
        Cl::Stream => {
            out.class("own stream");
            let client = reqwest::Client::builder().no_proxy().build().expect("client");
            match rt.block_on(HttpStream::new(client, url)) {
                Err(e) => creation_error(case, e, out),
                Ok(s) => {
                    let want = match &case.mime {
                        Mime::Valid(a, b, _) => Some(ContentType { r#type: a.clone(), subtype: b.clone() }),
                        _ => None,
                    };
                    if *s.content_type() != want {
                        out.problem(format!("content type {:?} instead of {want:?}", s.content_type()));
                    }
                    let want = case.extra.as_deref().filter(|x| x.is_ascii()).map(|x| std::str::from_utf8(x).expect("ascii"));
                    if s.header("X-Extra") != want || s.header("x-extra") != want || s.header("X-Missing").is_some() {
                        out.problem(format!("header {:?} instead of {want:?}", s.header("X-Extra")));
                    }
                    if s.headers().get("x-extra").map(reqwest::header::HeaderValue::as_bytes) != case.extra.as_deref() {
                        out.problem("the raw header differs");
                    }
                    let length = (case.framing == Framing::Length).then_some(u64::from(case.size));
                    if SourceStream::content_length(&s) != length {
                        out.problem(format!("content length {:?} instead of {length:?}", SourceStream::content_length(&s)));
                    }
                    let made = rt.block_on(StreamDownload::from_stream(s, p(), settings(case)));
                    opened(case, made, site, out);
                }
            }
        }
    }
}

fn creation_error<C: stream_download::http::Client>(case: &WebCase, e: HttpStreamError<C>, out: &mut Outcome) {
    out.nontrivial = true;
    match (&e, case.faults.first()) {
        (HttpStreamError::ResponseFailure(_), Some(WFault::Status(code))) => {
            out.class("creation rejected");
            let text = workers().block_on(e.decode_error());
            if !text.contains(&code.to_string()) || !text.contains(&error_text(case, 0, *code)) {
                out.problem(format!("the error response {code} is decoded as {text:?}"));
            }
        }
        (HttpStreamError::FetchFailure(_), Some(WFault::Reset)) => {
            out.class("creation reset");
            if workers().block_on(e.decode_error()).is_empty() {
                out.problem("an empty error message");
            }
        }
        (e, f) => out.problem(format!("creation failed with {e:?} although the server's fault is {f:?}")),
    }
}

fn opened<P: StorageProvider, C: stream_download::http::Client>(
    case: &WebCase,
    made: Result<StreamDownload<P>, StreamInitializationError<HttpStream<C>>>,
    site: &Site,
    out: &mut Outcome,
) where
    StreamDownload<P>: Read + Seek,
{
    let mut r = match made {
        Ok(r) => r,
        Err(StreamInitializationError::StreamCreationFailure(e)) => return creation_error(case, e, out),
        Err(StreamInitializationError::StorageCreationFailure(e)) => return out.problem(format!("storage: {e}")),
    };
    if matches!(case.faults.first(), Some(WFault::Status(_) | WFault::Reset)) {
        return out.problem("an error response was accepted");
    }
    let known = case.framing == Framing::Length;
    let length = known.then_some(u64::from(case.size));
    if r.content_length() != length {
        return out.problem(format!("content length {:?} instead of {length:?}", r.content_length()));
    }
    let sequential = case.ops.iter().all(|o| matches!(o, ROp::Read(_)));
    let drops = case.faults.iter().any(|f| matches!(f, WFault::Drop(_)));
    let stalls = case.faults.iter().any(|f| matches!(f, WFault::Stall(_)));
    let rejects = case.faults.iter().any(|f| matches!(f, WFault::Status(_) | WFault::Reset));
    let d = Driver {
        body: &site.body,
        known,
        // a failed reconnect is only tried again, a failed seek is fatal
        errors_allowed: (rejects && (!sequential || drops)) || (!known && !sequential),
        short_allowed: !known && (drops || !sequential),
    };
    d.play(&mut r, &case.ops, true, out);
    drop(r);
    if drops {
        out.class("dropped connection");
    }
    if stalls {
        out.class("stalled connection");
    }
    if rejects {
        out.class("rejected request");
    }
    if site.log.lock().unwrap().iter().any(|r| r.range.is_some()) {
        out.class("range request");
    }
    out.nontrivial |= drops || stalls || rejects || (!case.pieces.is_empty() && !sequential);
}

fn requests(case: &WebCase, site: &Site, out: &mut Outcome) {
    let log = site.log.lock().unwrap();
    let len = u64::from(case.size);
    for (i, r) in log.iter().enumerate() {
        let want = (case.client == Cl::Middleware).then_some("ab");
        if r.middleware.as_deref() != want {
            out.problem(format!("request {i} passed through the middleware {:?}", r.middleware));
        }
        let Some(v) = &r.range else {
            let reconnects = case.accept != Accept::Bytes && case.faults.iter().any(|f| matches!(f, WFault::Stall(_) | WFault::Hang));
            if i > 0 && !reconnects {
                out.problem(format!("request {i} asks for the whole resource again"));
            }
            continue;
        };
        let parsed = parse_range(v);
        let ok = i > 0
            && parsed.is_some_and(|(a, b)| {
                b.is_none_or(|b| b >= a) && (case.framing != Framing::Length || (a < len && b.is_none_or(|b| b < len)))
            });
        if !ok {
            out.problem(format!("request {i} of a resource of {len} bytes has Range: {v}"));
        }
    }
}
