//! HTTP layer over a scripted client (C19), OpenDAL (C22), async readers (C24) and
//! initialisation (C25).
use std::collections::VecDeque;
use std::error::Error as StdError;
use std::fmt;
use std::future::Future;
use std::io::{self, Read, Seek, SeekFrom};
use std::num::{NonZeroU64, NonZeroUsize};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::task::{Context, Poll};
use std::time::Duration;

use bytes::Bytes;
use futures_util::{Stream, StreamExt};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use stream_download::async_read::{AsyncReadStream, AsyncReadStreamParams};
use stream_download::http::{
    Client, ClientResponse, ContentType, HttpStream, HttpStreamError, ResponseHeaders, format_range_header_bytes,
};
use stream_download::source::{DecodeError, SourceStream, StreamOutcome};
use stream_download::storage::StorageProvider;
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::memory::{MemoryStorage, MemoryStorageProvider};
use stream_download::storage::temp::TempStorageProvider;
use stream_download::{Settings, StreamDownload, StreamInitializationError};
use stream_download_opendal::{OpendalStream, OpendalStreamParams, StreamDownloadExt};
use tokio::io::{AsyncRead, ReadBuf};

use crate::runner::{AnyCheck, Check, Outcome};

pub const ALL: &[&dyn AnyCheck] = &[&C19, &C22, &C24, &C25];

/// Runtime for the download tasks of all cases.
pub fn workers() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| {
        tokio::runtime::Builder::new_multi_thread()
            .worker_threads(8)
            .enable_all()
            .build()
            .expect("runtime")
    })
}

fn local<F: Future>(f: F) -> F::Output {
    thread_local! {
        static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    }
    RT.with(|rt| rt.block_on(f))
}

/// The byte at an offset of the n-th content.
pub fn byte(salt: u64, at: u64) -> u8 {
    let mut z = (at / 8 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ salt.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    (z >> (8 * (at % 8))) as u8
}

pub fn content(salt: u64, len: u64) -> Vec<u8> {
    (0..len).map(|i| byte(salt, i)).collect()
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Item {
    Data(u16),
    Error,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Good,
    /// the request itself fails
    FetchError(String),
    /// an error status
    Rejected(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mime {
    Missing,
    Valid(String, String, String),
    Invalid(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Resp {
    kind: Kind,
    length: Option<u64>,
    mime: Mime,
    accept_ranges: Option<String>,
    extra: Option<String>,
    body: Vec<Item>,
    yields: u8,
    /// the server answers range requests with the whole resource
    #[serde(default)]
    ignores: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum At {
    Abs(u64),
    Length,
    Before(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum HOp {
    Seek(At, Option<NonZeroU64>),
    Reconnect(At),
    Poll(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct HttpCase {
    url: String,
    via_create: bool,
    responses: Vec<Resp>,
    ops: Vec<HOp>,
}

#[derive(Clone, Debug, PartialEq)]
enum Call {
    Get(String),
    Range(String, u64, Option<u64>),
}

struct MockState {
    script: Mutex<VecDeque<(usize, Resp)>>,
    calls: Mutex<Vec<Call>>,
}

struct MockUrl {
    text: String,
    state: Arc<MockState>,
}
impl fmt::Display for MockUrl {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.text)
    }
}

struct MockClient;
#[derive(Debug)]
struct MockError(String);
impl fmt::Display for MockError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "<{}>", self.0)
    }
}
impl StdError for MockError {}
#[derive(Debug)]
struct Rejection(String);
impl fmt::Display for Rejection {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("rejected")
    }
}
impl StdError for Rejection {}
impl DecodeError for Rejection {
    async fn decode_error(self) -> String {
        tokio::task::yield_now().await;
        format!("[{}]", self.0)
    }
}

struct MockHeaders(Vec<(&'static str, String)>);
impl ResponseHeaders for MockHeaders {
    fn header(&self, name: &str) -> Option<&str> {
        self.0.iter().find(|h| h.0.eq_ignore_ascii_case(name)).map(|h| h.1.as_str())
    }
}

struct MockResponse {
    n: usize,
    partial: bool,
    resp: Resp,
    mime: Option<String>,
}

fn items(n: usize, body: &[Item]) -> Vec<Result<Bytes, MockError>> {
    let mut at = 0u64;
    body.iter()
        .enumerate()
        .map(|(i, it)| match it {
            Item::Data(k) => {
                let v: Vec<u8> = (at..at + u64::from(*k)).map(|x| byte(n as u64 + 1, x)).collect();
                at += u64::from(*k);
                Ok(Bytes::from(v))
            }
            Item::Error => Err(MockError(format!("{n}.{i}"))),
        })
        .collect()
}

impl ClientResponse for MockResponse {
    type ResponseError = Rejection;
    type StreamError = MockError;
    type Headers = MockHeaders;

    fn content_length(&self) -> Option<u64> {
        self.resp.length
    }
    fn content_type(&self) -> Option<&str> {
        self.mime.as_deref()
    }
    fn headers(&self) -> MockHeaders {
        let mut h = vec![];
        if let Some(a) = &self.resp.accept_ranges {
            h.push(("accept-ranges", a.clone()));
        }
        if let Some(x) = &self.resp.extra {
            h.push(("X-Extra", x.clone()));
        }
        if self.partial {
            h.push(("Content-Range", "bytes */*".to_string()));
        }
        MockHeaders(h)
    }
    fn into_result(self) -> Result<Self, Rejection> {
        match &self.resp.kind {
            Kind::Rejected(m) => Err(Rejection(m.clone())),
            _ => Ok(self),
        }
    }
    fn stream(self) -> Box<dyn Stream<Item = Result<Bytes, MockError>> + Unpin + Send + Sync> {
        Box::new(futures_util::stream::iter(items(self.n, &self.resp.body)))
    }
}

impl MockClient {
    async fn answer(url: &MockUrl, call: Call) -> Result<MockResponse, MockError> {
        let ranged = matches!(call, Call::Range(..));
        url.state.calls.lock().unwrap().push(call);
        let (n, resp) = url.state.script.lock().unwrap().pop_front().unwrap_or_else(|| (999, Resp::default()));
        for _ in 0..resp.yields {
            tokio::task::yield_now().await;
        }
        if let Kind::FetchError(m) = &resp.kind {
            return Err(MockError(m.clone()));
        }
        let mime = resp.mime.text();
        let partial = ranged && !resp.ignores;
        Ok(MockResponse { n, partial, resp, mime })
    }
}

impl Client for MockClient {
    type Url = MockUrl;
    type Headers = MockHeaders;
    type Response = MockResponse;
    type Error = MockError;

    fn create() -> Self {
        Self
    }
    async fn get(&self, url: &MockUrl) -> Result<MockResponse, MockError> {
        Self::answer(url, Call::Get(url.text.clone())).await
    }
    async fn get_range(&self, url: &MockUrl, start: u64, end: Option<u64>) -> Result<MockResponse, MockError> {
        Self::answer(url, Call::Range(url.text.clone(), start, end)).await
    }
}

impl Default for Resp {
    fn default() -> Self {
        Self { kind: Kind::Good, length: None, mime: Mime::Missing, accept_ranges: None, extra: None, body: vec![], yields: 0, ignores: false }
    }
}

impl Mime {
    fn text(&self) -> Option<String> {
        match self {
            Mime::Missing => None,
            Mime::Valid(a, b, p) => Some(format!("{a}/{b}{p}")),
            Mime::Invalid(t) => Some(t.clone()),
        }
    }
}

static C19: Check<HttpCase> = Check {
    id: "C19",
    rule: "a seek or reconnect after a successful creation, or a failed creation",
    assumptions: &["the client is a scripted implementation of the public Client trait"],
    quick: 1_500_000,
    thorough: 50_000_000,
    strategy: || {
        let msg = || prop::sample::select(vec!["boom", "404", "no such thing", "é!", ""]).prop_map(String::from);
        let body = || vec(prop_oneof![6 => (0u16..12).prop_map(Item::Data), 1 => Just(Item::Error), 1 => (0u16..2000).prop_map(Item::Data)], 0..6);
        let mime = prop_oneof![
            1 => Just(Mime::Missing),
            3 => ("[a-zA-Z][a-zA-Z0-9]{0,7}", r"[a-zA-Z][a-zA-Z0-9_.-]{0,7}(\+[a-zA-Z]{1,4})?", prop::sample::select(vec!["", "; charset=utf-8", ";codecs=opus", ";a=b;c=d"]))
                .prop_map(|(a, b, p)| Mime::Valid(a, b, p.to_string())),
            1 => prop::sample::select(vec!["", "audio", "/", "audio/", "/mpeg", "aud io/mpeg", "äudio/mpeg", "a\\b/c", ";", "audio;mpeg"])
                .prop_map(|s| Mime::Invalid(s.to_string())),
        ]
        .boxed();
        let length = || prop_oneof![1 => Just(None), 4 => (0u64..40).prop_map(Some), 1 => any::<u64>().prop_map(Some)];
        let ranges = || {
            prop_oneof![
                3 => Just(Some("bytes")), 2 => Just(None), 2 => Just(Some("none")), 1 => Just(Some("other"))
            ]
            .prop_map(|o| o.map(String::from))
        };
        let resp = move |good: u32| {
            let kind = prop_oneof![good => Just(Kind::Good), 1 => msg().prop_map(Kind::FetchError), 1 => msg().prop_map(Kind::Rejected)];
            (kind, length(), mime.clone(), ranges(), prop::option::of(msg()), body(), prop_oneof![4 => Just(0u8), 1 => 1u8..3], prop::bool::weighted(0.2)).prop_map(
                |(kind, length, mime, accept_ranges, extra, body, yields, ignores)| Resp { kind, length, mime, accept_ranges, extra, body, yields, ignores },
            )
        };
        let at = || {
            prop_oneof![
                4 => (0u64..45).prop_map(At::Abs), 1 => (0u64..=u64::MAX - 64).prop_map(At::Abs),
                2 => Just(At::Length), 2 => (0u8..10).prop_map(At::Before)
            ]
        };
        let op = prop_oneof![
            3 => (at(), prop::option::of((1u64..50).prop_map(|n| NonZeroU64::new(n).unwrap()))).prop_map(|(a, e)| HOp::Seek(a, e)),
            3 => at().prop_map(HOp::Reconnect),
            3 => (1u8..8).prop_map(HOp::Poll),
        ];
        (
            prop::sample::select(vec!["http://a/b", "x", "", "http://é/ü?q"]),
            any::<bool>(),
            resp(12),
            vec(resp(5), 0..6),
            vec(op, 0..8),
        )
            .prop_map(|(url, via_create, first, mut responses, ops)| {
                for r in &mut responses {
                    if r.ignores {
                        r.length = first.length;
                    }
                }
                responses.insert(0, first);
                HttpCase { url: url.to_string(), via_create, responses, ops }
            })
            .boxed()
    },
    run: |c| local(c19(c)),
    case_limit_s: 60,
    shards: 8,
};

#[derive(Clone, Debug, PartialEq)]
enum Unit {
    Byte(u8),
    Err(String),
}

fn units(n: usize, body: &[Item]) -> VecDeque<Unit> {
    let mut out = VecDeque::new();
    for it in items(n, body) {
        match it {
            Ok(b) => out.extend(b.iter().map(|x| Unit::Byte(*x))),
            Err(e) => out.push_back(Unit::Err(e.0)),
        }
    }
    out
}

async fn c19(case: &HttpCase) -> Outcome {
    let mut out = Outcome::default();
    let state = Arc::new(MockState {
        script: Mutex::new(case.responses.iter().cloned().enumerate().collect()),
        calls: Mutex::new(vec![]),
    });
    let url = MockUrl { text: case.url.clone(), state: state.clone() };
    let made = if case.via_create {
        HttpStream::<MockClient>::create(url).await
    } else {
        HttpStream::new(MockClient, url).await
    };
    let calls = std::mem::take(&mut *state.calls.lock().unwrap());
    if calls != [Call::Get(case.url.clone())] {
        out.problem(format!("creation issued {calls:?}"));
    }
    let first = &case.responses[0];
    let mut stream = match (&first.kind, made) {
        (Kind::Good, Ok(s)) => s,
        (Kind::FetchError(m), Err(HttpStreamError::FetchFailure(e))) => {
            out.class("creation: fetch failure");
            out.nontrivial = true;
            if e.0 != *m {
                out.problem(format!("the fetch failure is {e:?} instead of {m:?}"));
            }
            let e = HttpStreamError::<MockClient>::FetchFailure(e);
            let shown = e.to_string();
            let decoded = e.decode_error().await;
            if !shown.contains(&format!("<{m}>")) || !decoded.contains(&format!("<{m}>")) {
                out.problem(format!("the message {m:?} is shown as {shown:?} and decoded as {decoded:?}"));
            }
            return out;
        }
        (Kind::Rejected(m), Err(HttpStreamError::ResponseFailure(e))) => {
            out.class("creation: error response");
            out.nontrivial = true;
            if e.0 != *m {
                out.problem(format!("the response failure is {e:?} instead of {m:?}"));
            }
            let decoded = HttpStreamError::<MockClient>::ResponseFailure(e).decode_error().await;
            if !decoded.contains(&format!("[{m}]")) {
                out.problem(format!("the message {m:?} is decoded as {decoded:?}"));
            }
            return out;
        }
        (k, Ok(_)) => return Outcome::fail(format!("creation succeeded in spite of {k:?}")),
        (k, Err(e)) => return Outcome::fail(format!("creation failed with {e:?} after {k:?}")),
    };
    if stream.content_length() != first.length {
        out.problem(format!("content length {:?} instead of {:?}", stream.content_length(), first.length));
    }
    let want = match &first.mime {
        Mime::Valid(a, b, _) => Some(ContentType { r#type: a.clone(), subtype: b.clone() }),
        _ => None,
    };
    if *stream.content_type() != want {
        out.problem(format!("content type {:?} instead of {want:?} for {:?}", stream.content_type(), first.mime));
    }
    if !stream.supports_seek() {
        out.problem("an HTTP stream that does not support seeking");
    }
    let ranges = first.accept_ranges.as_deref().is_some_and(|v| v != "none");
    let mut cur = units(0, &first.body);
    // after a failed request the rest of the old response may or may not be delivered
    let mut lenient = false;
    let mut next = 1usize;
    let resolve = |a: &At| match a {
        At::Abs(n) => *n,
        At::Length => first.length.unwrap_or(17),
        At::Before(k) => first.length.unwrap_or(17).saturating_sub(u64::from(*k)),
    };
    for (i, op) in case.ops.iter().enumerate() {
        let (expected_call, res, mut skip) = match op {
            HOp::Poll(n) => {
                for _ in 0..*n {
                    let Some(item) = stream.next().await else {
                        if !lenient && !cur.is_empty() {
                            out.problem(format!("op {i}: the stream ended with {} left", cur.len()));
                        }
                        cur.clear();
                        break;
                    };
                    match item {
                        Ok(b) => {
                            for x in b.iter() {
                                let want = cur.pop_front();
                                if want != Some(Unit::Byte(*x)) {
                                    out.problem(format!("op {i}: got {x} instead of {want:?}"));
                                }
                            }
                        }
                        Err(e) => {
                            let want = cur.pop_front();
                            if want != Some(Unit::Err(e.0.clone())) {
                                out.problem(format!("op {i}: got {e:?} instead of {want:?}"));
                            }
                        }
                    }
                }
                if stream.header("accept-ranges") != first.accept_ranges.as_deref()
                    || stream.header("X-Extra") != first.extra.as_deref()
                    || stream.headers().header("x-extra") != first.extra.as_deref()
                    || stream.header("missing").is_some()
                {
                    out.problem(format!("op {i}: headers changed"));
                }
                continue;
            }
            HOp::Seek(at, n) => {
                out.nontrivial = true;
                let start = resolve(at);
                let end = n.map(|n| start.saturating_add(n.get()));
                let call = (Some(start) != first.length).then(|| Call::Range(case.url.clone(), start, end.map(|e| e - 1)));
                let header = format_range_header_bytes(start, end.map(|e| e - 1));
                let want = end.map_or(format!("bytes={start}-"), |e| format!("bytes={start}-{}", e - 1));
                if header != want {
                    out.problem(format!("op {i}: range header {header:?} instead of {want:?}"));
                }
                out.class(if call.is_some() { "seek" } else { "seek to the end" });
                (call, stream.seek_range(start, end).await, 0)
            }
            HOp::Reconnect(at) => {
                out.nontrivial = true;
                let pos = resolve(at);
                let (call, skip) = if ranges {
                    ((Some(pos) != first.length).then(|| Call::Range(case.url.clone(), pos, None)), 0)
                } else {
                    // a live stream goes on where it is
                    (Some(Call::Get(case.url.clone())), if first.length.is_some() { pos } else { 0 })
                };
                out.class(if ranges { "reconnect with a range" } else { "reconnect from the start" });
                (call, stream.reconnect(pos).await, skip)
            }
        };
        let calls = std::mem::take(&mut *state.calls.lock().unwrap());
        if calls != expected_call.clone().into_iter().collect::<Vec<_>>() {
            out.problem(format!("op {i} ({op:?}, length {:?}): issued {calls:?} instead of {expected_call:?}", first.length));
            return out;
        }
        let default = Resp::default();
        let (n, resp) = if expected_call.is_some() {
            next += 1;
            case.responses.get(next - 1).map_or((999, &default), |r| (next - 1, r))
        } else {
            (999, &default)
        };
        if let Some(Call::Range(_, start, _)) = expected_call
            && resp.ignores
            && resp.length.is_some()
            && resp.length == first.length
        {
            out.class("the range is ignored");
            skip = start;
        }
        match (&resp.kind, res) {
            (Kind::Good, Ok(())) => {
                cur = units(n, &resp.body);
                lenient = false;
                let mut k = skip;
                let mut rest = VecDeque::new();
                for u in cur {
                    match u {
                        Unit::Byte(_) if k > 0 => k -= 1,
                        u => rest.push_back(u),
                    }
                }
                cur = rest;
            }
            (Kind::FetchError(m), Err(e)) => {
                out.class("request fails");
                lenient = true;
                if !e.to_string().contains(&format!("<{m}>")) {
                    out.problem(format!("op {i}: the message {m:?} is missing from {e}"));
                }
            }
            (Kind::Rejected(m), Err(e)) => {
                out.class("error response");
                lenient = true;
                if !e.to_string().contains(&format!("[{m}]")) {
                    out.problem(format!("op {i}: the decoded message {m:?} is missing from {e}"));
                }
            }
            (k, r) => {
                out.problem(format!("op {i}: returned {r:?} for {k:?}"));
                return out;
            }
        }
    }
    out
}

// ---------------------------------------------------------------- reading through a download

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ROp {
    Read(u16),
    /// absolute position as a fraction of the length
    Seek(u16),
    SeekBy(i16),
    SeekEnd(u16),
    /// forms that have to fail without moving
    SeekBad(u8),
}

pub fn rops(max: usize) -> impl Strategy<Value = Vec<ROp>> {
    vec(
        prop_oneof![
            4 => prop_oneof![3 => 0u16..40, 1 => any::<u16>()].prop_map(ROp::Read),
            2 => any::<u16>().prop_map(ROp::Seek),
            1 => (-60i16..60).prop_map(ROp::SeekBy),
            1 => any::<u16>().prop_map(ROp::SeekEnd),
            1 => any::<u8>().prop_map(ROp::SeekBad),
        ],
        0..max,
    )
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Store {
    Memory,
    Temp,
    Adaptive(u16),
}

pub fn store() -> impl Strategy<Value = Store> {
    prop_oneof![3 => Just(Store::Memory), 1 => Just(Store::Temp), 1 => (1u16..300).prop_map(Store::Adaptive)]
}

pub struct Driver<'a> {
    pub body: &'a [u8],
    pub known: bool,
    /// every position can be reached (else: only what is known to be read so far or less)
    pub errors_allowed: bool,
    /// the content may end early (a dropped connection with no length)
    pub short_allowed: bool,
}

impl Driver<'_> {
    /// Plays the operations and reads the rest; compares with a plain file.
    pub fn play(&self, r: &mut (impl Read + Seek), ops: &[ROp], finish: bool, out: &mut Outcome) {
        let len = self.body.len() as u64;
        let mut pos = 0u64;
        let frac = |f: u16| (u64::from(f) * (len + 1)) >> 16;
        for (i, op) in ops.iter().enumerate() {
            let target = match op {
                ROp::Read(n) => {
                    let mut buf = vec![0u8; usize::from(*n)];
                    match r.read(&mut buf) {
                        Ok(k) => {
                            let k64 = k as u64;
                            if k > buf.len() || pos + k64 > len || buf[..k] != self.body[pos as usize..pos as usize + k] {
                                out.problem(format!("op {i}: a read of {n} at {pos} returned {k} wrong bytes"));
                                return;
                            }
                            if k == 0 && *n > 0 && pos < len && !self.short_allowed {
                                out.problem(format!("op {i}: end of file at {pos} of {len}"));
                                return;
                            }
                            pos += k64;
                        }
                        Err(e) if self.errors_allowed => {
                            out.class("read error");
                            let _ = e;
                            return;
                        }
                        Err(e) => {
                            out.problem(format!("op {i}: reading {n} at {pos} of {len} failed: {e}"));
                            return;
                        }
                    }
                    continue;
                }
                ROp::Seek(f) => (SeekFrom::Start(frac(*f)), frac(*f)),
                ROp::SeekBy(d) => {
                    let t = pos.saturating_add_signed(i64::from(*d)).min(len);
                    (SeekFrom::Current(t as i64 - pos as i64), t)
                }
                ROp::SeekEnd(f) if self.known => (SeekFrom::End(-((len - frac(*f)) as i64)), frac(*f)),
                ROp::SeekEnd(_) => {
                    if r.seek(SeekFrom::End(0)).is_ok() {
                        out.problem(format!("op {i}: a seek from an unknown end succeeded"));
                        return;
                    }
                    continue;
                }
                ROp::SeekBad(k) => {
                    let bad = if k % 2 == 0 || !self.known {
                        SeekFrom::Current(-(pos as i64) - 1 - i64::from(*k))
                    } else {
                        SeekFrom::End(-(len as i64) - 1 - i64::from(*k))
                    };
                    if let Ok(p) = r.seek(bad) {
                        out.problem(format!("op {i}: {bad:?} at {pos} returned {p}"));
                        return;
                    }
                    continue;
                }
            };
            match r.seek(target.0) {
                Ok(p) if p == target.1 => pos = p,
                Ok(p) => {
                    out.problem(format!("op {i}: {:?} returned {p} instead of {}", target.0, target.1));
                    return;
                }
                Err(_) if self.errors_allowed => {
                    out.class("seek error");
                    return;
                }
                Err(e) => {
                    out.problem(format!("op {i}: {:?} failed: {e}", target.0));
                    return;
                }
            }
        }
        if finish {
            let mut rest = vec![];
            let res = r.read_to_end(&mut rest);
            let want = &self.body[pos as usize..];
            if !want.starts_with(&rest) {
                out.problem(format!("wrong bytes in the rest from {pos} of {len}: {} bytes", rest.len()));
            } else if res.is_ok() && rest.len() != want.len() && !self.short_allowed {
                out.problem(format!("end of file at {} of {len}", pos + rest.len() as u64));
            } else if let Err(e) = res
                && !self.errors_allowed
            {
                out.problem(format!("reading the rest from {pos} failed: {e}"));
            }
        }
    }
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum OOp {
    /// both as fractions of the length
    Seek(u16, Option<u16>),
    Reconnect(u16),
    Poll(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum OMode {
    Direct(Vec<OOp>),
    Download { ops: Vec<ROp>, prefetch: u16, batch: u16, store: Store },
    Missing(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DalCase {
    size: u32,
    chunk: Option<u16>,
    mime: Option<String>,
    mode: OMode,
    service: Option<Service>,
    /// which name the object has
    name: u8,
}

const NAMES: [&str; 5] = ["some/key", "Some Key.OGG", "ä/ö ü", "a%20b?c=d#e", "x"];

/// What happens to the object's data on its way from the service.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Service {
    /// size of the pieces
    piece: u16,
    yields: u8,
    /// failures of reads, each once: before the byte at that fraction of the length is delivered;
    /// of opening a reader: before the n-th
    fails: Vec<(u16, u8)>,
    opens: Vec<(u8, u8)>,
    /// failure of the request for the metadata
    stat: Option<u8>,
}

#[derive(Debug)]
struct Relay {
    plan: Service,
    fails: Mutex<Vec<(u64, u8)>>,
    opened: AtomicU64,
    failed: AtomicU64,
}
impl Relay {
    fn error(&self, kind: u8) -> opendal::Error {
        use opendal::ErrorKind::{NotFound, PermissionDenied, RateLimited, Unexpected};
        self.failed.fetch_add(1, Ordering::SeqCst);
        let e = opendal::Error::new([NotFound, PermissionDenied, RateLimited, Unexpected][usize::from(kind % 4)], "injected");
        if kind % 8 > 4 { e.set_temporary() } else { e }
    }
}
#[derive(Clone, Debug)]
struct RelayLayer(Arc<Relay>);
#[derive(Debug)]
struct RelayService(opendal::raw::Servicer, Arc<Relay>);
struct RelayReader(opendal::raw::oio::Reader, Arc<Relay>);
struct RelayStream {
    inner: Box<dyn opendal::raw::oio::ReadStreamDyn>,
    relay: Arc<Relay>,
    at: u64,
    rest: opendal::Buffer,
}

impl opendal::raw::Layer for RelayLayer {
    fn apply_service(&self, srv: opendal::raw::Servicer) -> opendal::raw::Servicer {
        Arc::new(RelayService(srv, self.0.clone()))
    }
}
mod relay {
    use opendal::raw::{
        OpCopier, OpCopy, OpCreateDir, OpList, OpPresign, OpRead, OpRename, OpStat, OpWrite,
        RpCreateDir, RpPresign, RpRead, RpRename, RpStat, Service, ServiceInfo, oio,
    };
    use opendal::{Buffer, BytesRange, Capability, OperationContext, Result};
    use std::sync::atomic::Ordering;

    use super::{RelayReader, RelayService, RelayStream};

    impl Service for RelayService {
        type Reader = RelayReader;
        type Writer = oio::Writer;
        type Lister = oio::Lister;
        type Deleter = oio::Deleter;
        type Copier = oio::Copier;
        fn info(&self) -> ServiceInfo {
            self.0.info()
        }
        fn capability(&self) -> Capability {
            self.0.capability()
        }
        async fn create_dir(&self, ctx: &OperationContext, path: &str, args: OpCreateDir) -> Result<RpCreateDir> {
            self.0.create_dir(ctx, path, args).await
        }
        fn read(&self, ctx: &OperationContext, path: &str, args: OpRead) -> Result<RelayReader> {
            Ok(RelayReader(self.0.read(ctx, path, args)?, self.1.clone()))
        }
        fn write(&self, ctx: &OperationContext, path: &str, args: OpWrite) -> Result<oio::Writer> {
            self.0.write(ctx, path, args)
        }
        fn copy(&self, ctx: &OperationContext, from: &str, to: &str, args: OpCopy, opts: OpCopier) -> Result<oio::Copier> {
            self.0.copy(ctx, from, to, args, opts)
        }
        async fn rename(&self, ctx: &OperationContext, from: &str, to: &str, args: OpRename) -> Result<RpRename> {
            self.0.rename(ctx, from, to, args).await
        }
        async fn stat(&self, ctx: &OperationContext, path: &str, args: OpStat) -> Result<RpStat> {
            if let Some(k) = self.1.plan.stat {
                return Err(self.1.error(k));
            }
            self.0.stat(ctx, path, args).await
        }
        fn delete(&self, ctx: &OperationContext) -> Result<oio::Deleter> {
            self.0.delete(ctx)
        }
        fn list(&self, ctx: &OperationContext, path: &str, args: OpList) -> Result<oio::Lister> {
            self.0.list(ctx, path, args)
        }
        async fn presign(&self, ctx: &OperationContext, path: &str, args: OpPresign) -> Result<RpPresign> {
            self.0.presign(ctx, path, args).await
        }
    }

    impl oio::Read for RelayReader {
        async fn open(&self, range: BytesRange) -> Result<(RpRead, Box<dyn oio::ReadStreamDyn>)> {
            let n = self.1.opened.fetch_add(1, Ordering::SeqCst);
            if let Some((_, k)) = self.1.plan.opens.iter().find(|(i, _)| u64::from(*i) == n) {
                return Err(self.1.error(*k));
            }
            let (rp, inner) = self.0.open(range).await?;
            Ok((rp, Box::new(RelayStream { inner, relay: self.1.clone(), at: range.offset(), rest: Buffer::new() })))
        }
        async fn read(&self, range: BytesRange) -> Result<(RpRead, Buffer)> {
            self.0.read(range).await
        }
    }

    impl oio::ReadStream for RelayStream {
        async fn read(&mut self) -> Result<Buffer> {
            for _ in 0..self.relay.plan.yields {
                tokio::task::yield_now().await;
            }
            if self.rest.is_empty() {
                self.rest = self.inner.read_dyn().await?;
            }
            let mut n = self.rest.len().min(usize::from(self.relay.plan.piece.max(1)));
            let mut fails = self.relay.fails.lock().unwrap();
            if let Some(i) = fails.iter().position(|(p, _)| *p == self.at) {
                let (_, k) = fails.remove(i);
                return Err(self.relay.error(k));
            }
            if let Some((p, _)) = fails.iter().filter(|(p, _)| *p > self.at).min() {
                n = n.min((*p - self.at) as usize);
            }
            drop(fails);
            let piece = self.rest.slice(..n);
            self.rest = self.rest.slice(n..);
            self.at += n as u64;
            Ok(piece)
        }
    }
}

static C22: Check<DalCase> = Check {
    id: "C22",
    rule: "the object is longer than one chunk and is sought in, or it is empty, missing or unavailable",
    assumptions: &["the object lives in OpenDAL's in-memory service"],
    quick: 600_000,
    thorough: 20_000_000,
    strategy: || {
        let size = prop_oneof![32 => 0u32..200, 16 => 0u32..10_000, 8 => Just(0u32), 8 => (0u32..5).prop_map(|k| 4094 + k), 1 => 10_000u32..250_000];
        let chunk = prop::option::of(prop_oneof![3 => 1u16..40, 2 => 1u16..9000]);
        let op = prop_oneof![
            3 => (any::<u16>(), prop::option::of(any::<u16>())).prop_map(|(a, b)| OOp::Seek(a, b)),
            1 => any::<u16>().prop_map(OOp::Reconnect),
            3 => (1u8..6).prop_map(OOp::Poll),
        ];
        let mode = prop_oneof![
            4 => vec(op, 0..8).prop_map(OMode::Direct),
            4 => (rops(8), prop_oneof![2 => Just(0u16), 2 => 0u16..400], 1u16..600, store())
                .prop_map(|(ops, prefetch, batch, store)| OMode::Download { ops, prefetch, batch, store }),
            1 => any::<bool>().prop_map(OMode::Missing),
        ];
        let mime = prop::option::of(prop::sample::select(vec!["audio/mpeg", "text/plain; charset=utf-8", "weird"]).prop_map(String::from));
        let fails = |n: usize| prop_oneof![2 => Just(0..1usize), 1 => Just(0..n)];
        let service = (
            prop_oneof![1u16..30, 1u16..6000],
            prop_oneof![3 => Just(0u8), 1 => 1u8..3],
            fails(4).prop_flat_map(|n| vec(any::<(u16, u8)>(), n)),
            fails(3).prop_flat_map(|n| vec((0u8..4, any::<u8>()), n)),
            prop::option::weighted(0.03, any::<u8>()),
        )
            .prop_map(|(piece, yields, fails, opens, stat)| Service { piece, yields, fails, opens, stat });
        (size, chunk, mime, mode, prop::option::of(service), 0..NAMES.len() as u8)
            .prop_map(|(size, mut chunk, mime, mode, mut service, name)| {
                // a large object in tiny pieces takes long
                if size > 10_000 {
                    chunk = chunk.map(|c| c.max(1000));
                    if let Some(s) = &mut service {
                        s.piece = s.piece.saturating_add(1000);
                    }
                }
                DalCase { size, chunk, mime, mode, service, name }
            })
            .boxed()
    },
    run: c22,
    case_limit_s: 60,
    shards: 8,
};

fn c22(case: &DalCase) -> Outcome {
    let mut out = Outcome::default();
    let body = content(7, u64::from(case.size));
    let name = NAMES[usize::from(case.name) % NAMES.len()];
    let op = opendal::Operator::new(opendal::services::Memory::default()).expect("memory service");
    local(async {
        let mut w = op.write_with(name, body.clone());
        if let Some(m) = &case.mime {
            w = w.content_type(m);
        }
        w.await.expect("write");
    });
    let relay = case.service.as_ref().map(|s| {
        let len = u64::from(case.size);
        Arc::new(Relay {
            plan: s.clone(),
            fails: Mutex::new(s.fails.iter().map(|(f, k)| ((u64::from(*f) * (len + 1)) >> 16, *k)).collect()),
            opened: AtomicU64::new(0),
            failed: AtomicU64::new(0),
        })
    });
    let op = match &relay {
        Some(r) => op.layer(RelayLayer(r.clone())),
        None => op,
    };
    let failures = || relay.as_ref().map_or(0, |r| r.failed.load(Ordering::SeqCst));
    let mut params = OpendalStreamParams::new(op, if matches!(case.mode, OMode::Missing(_)) { "other" } else { name });
    if let Some(c) = case.chunk.and_then(|c| NonZeroUsize::new(usize::from(c))) {
        params = params.chunk_size(c);
    }
    let chunk = u32::from(case.chunk.unwrap_or(4096));
    let len = u64::from(case.size);
    let frac = |f: u16| (u64::from(f) * (len + 1)) >> 16;
    let expected_len = (len > 0).then_some(len);
    if case.service.as_ref().is_some_and(|s| s.stat.is_some()) {
        out.class("metadata unavailable");
        out.nontrivial = true;
        let err = match &case.mode {
            OMode::Direct(_) => local(OpendalStream::create(params)).err(),
            _ => match workers().block_on(StreamDownload::new_opendal(params, MemoryStorageProvider, Settings::default())) {
                Err(StreamInitializationError::StreamCreationFailure(e)) => Some(e),
                _ => None,
            },
        };
        match err {
            None => out.problem("an error of the service is not a creation error"),
            Some(e) => {
                let shown = e.to_string();
                if !shown.contains("injected") || !local(e.decode_error()).contains("injected") {
                    out.problem(format!("the service's error is shown as {shown:?}"));
                }
            }
        }
        return out;
    }
    match &case.mode {
        OMode::Missing(download) => {
            out.class("missing object");
            out.nontrivial = true;
            let failed = if *download {
                workers()
                    .block_on(StreamDownload::new_opendal(params, MemoryStorageProvider, Settings::default()))
                    .is_err_and(|e| matches!(e, StreamInitializationError::StreamCreationFailure(_)))
            } else {
                local(OpendalStream::create(params)).is_err()
            };
            if !failed {
                out.problem("a missing object is not a creation error");
            }
        }
        OMode::Direct(ops) => local(async {
            let mut s = match OpendalStream::create(params).await {
                Ok(s) => s,
                Err(e) => return out.problem(format!("creation failed: {e}")),
            };
            if s.content_length() != expected_len || s.content_type() != case.mime.as_deref() || !s.supports_seek() {
                out.problem(format!(
                    "length {:?} of {len}, type {:?} of {:?}, seekable {}",
                    s.content_length(),
                    s.content_type(),
                    case.mime,
                    s.supports_seek()
                ));
            }
            let mut cur: (u64, u64) = (0, len);
            let mut polled = Poll1 { failures: Box::new(failures), seen: 0, broken: false };
            for (i, o) in ops.iter().enumerate() {
                match o {
                    OOp::Seek(a, b) => {
                        let (a, b) = match b {
                            Some(b) => (frac(*a).min(frac(*b)), Some(frac(*a).max(frac(*b)))),
                            None => (frac(*a), None),
                        };
                        if b == Some(a) && a != len {
                            continue;
                        }
                        if let Err(e) = s.seek_range(a, b).await {
                            return out.problem(format!("op {i}: seek to {a}..{b:?} of {len} failed: {e}"));
                        }
                        cur = (a, b.unwrap_or(len));
                        polled.broken = false;
                        out.class("seek");
                        out.nontrivial |= case.size > chunk;
                    }
                    OOp::Reconnect(p) => {
                        let p = frac(*p);
                        if let Err(e) = s.reconnect(p).await {
                            return out.problem(format!("op {i}: reconnect at {p} of {len} failed: {e}"));
                        }
                        cur = (p, len);
                        polled.broken = false;
                        out.class("reconnect");
                        out.nontrivial |= case.size > chunk;
                    }
                    OOp::Poll(n) => {
                        for _ in 0..*n {
                            if !polled.one(&mut s, &mut cur, &body, &mut out).await {
                                break;
                            }
                        }
                    }
                }
                if out.fail.is_some() {
                    return;
                }
            }
            while polled.one(&mut s, &mut cur, &body, &mut out).await {}
        }),
        OMode::Download { ops, prefetch, batch, store } => {
            let settings = || {
                Settings::default()
                    .prefetch_bytes(u64::from(*prefetch))
                    .batch_write_size(NonZeroUsize::new(usize::from(*batch).max(1)).unwrap())
            };
            let d = Driver { body: &body, known: expected_len.is_some(), errors_allowed: false, short_allowed: false };
            fn go<P: StorageProvider>(
                r: Result<StreamDownload<P>, StreamInitializationError<OpendalStream>>,
                d: &Driver<'_>,
                expected_len: Option<u64>,
                ops: &[ROp],
                out: &mut Outcome,
            ) {
                match r {
                    Err(e) => out.problem(format!("creation failed: {e}")),
                    Ok(mut r) => {
                        if r.content_length() != expected_len {
                            out.problem(format!("length {:?} instead of {expected_len:?}", r.content_length()));
                        }
                        d.play(&mut r, ops, true, out);
                    }
                }
            }
            match store {
                Store::Memory => go(
                    workers().block_on(StreamDownload::new_opendal(params, MemoryStorageProvider, settings())),
                    &d,
                    expected_len,
                    ops,
                    &mut out,
                ),
                Store::Temp => go(
                    workers().block_on(StreamDownload::new_opendal(params, TempStorageProvider::new(), settings())),
                    &d,
                    expected_len,
                    ops,
                    &mut out,
                ),
                Store::Adaptive(n) if len > 0 => {
                    let p = AdaptiveStorageProvider::new(TempStorageProvider::new(), NonZeroUsize::new(usize::from(*n)).unwrap());
                    go(workers().block_on(StreamDownload::new_opendal(params, p, settings())), &d, expected_len, ops, &mut out);
                }
                Store::Adaptive(_) => {}
            }
            out.class("download");
            if failures() > 0 {
                out.class("download with read errors");
            }
            out.nontrivial |= case.size > chunk && ops.iter().any(|o| !matches!(o, ROp::Read(_)));
        }
    }
    out.nontrivial |= len == 0;
    if len == 0 {
        out.class("empty object");
    }
    out
}

struct Poll1<'a> {
    /// number of errors injected so far
    failures: Box<dyn Fn() -> u64 + 'a>,
    seen: u64,
    /// there was an error since the last seek: the stream may have ended there
    broken: bool,
}
impl Poll1<'_> {
    async fn one(&mut self, s: &mut OpendalStream, cur: &mut (u64, u64), body: &[u8], out: &mut Outcome) -> bool {
        let item = s.next().await;
        let failed = (self.failures)() - self.seen;
        self.seen += failed;
        if failed > 0 {
            out.class("read error");
            self.broken = true;
            if !matches!(item, Some(Err(_))) {
                out.problem(format!("an error at {cur:?} was delivered as {item:?}"));
                return false;
            }
            return true;
        }
        match item {
            None => {
                if cur.0 != cur.1 && !self.broken {
                    out.problem(format!("the stream ended at {} instead of {}", cur.0, cur.1));
                }
                false
            }
            Some(Err(e)) => {
                if !self.broken {
                    out.problem(format!("reading {cur:?} failed: {e}"));
                }
                false
            }
            Some(Ok(b)) => {
                let end = cur.0 + b.len() as u64;
                if end > cur.1 || body[cur.0 as usize..end as usize] != b[..] {
                    out.problem(format!("{} wrong bytes at {} of ..{}", b.len(), cur.0, cur.1));
                    return false;
                }
                cur.0 = end;
                true
            }
        }
    }
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Frag {
    Bytes(u16),
    /// wakes itself at once / later, from another task
    Pending(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum AMode {
    /// polls between seek (false) and reconnect (true) requests
    Direct(Vec<(u8, bool, u16)>),
    Download { ops: Vec<ROp>, prefetch: u16, batch: u16, store: Store },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ReadCase {
    size: u32,
    frags: Vec<Frag>,
    known: bool,
    mode: AMode,
}

struct Fragmented {
    body: Vec<u8>,
    at: usize,
    frags: Vec<Frag>,
    next: usize,
    left: usize,
}

impl AsyncRead for Fragmented {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let me = &mut *self;
        if me.at == me.body.len() {
            return Poll::Ready(Ok(()));
        }
        if me.left == 0 && !me.frags.is_empty() {
            let f = me.frags[me.next % me.frags.len()].clone();
            me.next += 1;
            match f {
                Frag::Pending(now) => {
                    let w = cx.waker().clone();
                    if now {
                        w.wake();
                    } else {
                        tokio::spawn(async move {
                            tokio::task::yield_now().await;
                            w.wake();
                        });
                    }
                    return Poll::Pending;
                }
                Frag::Bytes(n) => me.left = usize::from(n).max(1),
            }
        } else if me.left == 0 {
            me.left = usize::MAX;
        }
        let n = buf.remaining().min(me.left).min(me.body.len() - me.at);
        buf.put_slice(&me.body[me.at..me.at + n]);
        me.at += n;
        me.left -= n;
        Poll::Ready(Ok(()))
    }
}

static C24: Check<ReadCase> = Check {
    id: "C24",
    rule: "the reader is fragmented or pending at least once, and the stream is sought in or asked to seek or reconnect",
    assumptions: &[],
    quick: 300_000,
    thorough: 10_000_000,
    strategy: || {
        let size = prop_oneof![4 => 0u32..200, 2 => 0u32..20_000, 1 => Just(0u32), 1 => (0u32..5).prop_map(|k| 4094 + k)];
        let frag = prop_oneof![
            3 => (1u16..30).prop_map(Frag::Bytes), 1 => (1u16..9000).prop_map(Frag::Bytes), 2 => any::<bool>().prop_map(Frag::Pending)
        ];
        let frags = (vec(frag, 0..6), 1u16..200).prop_map(|(mut f, k)| {
            if !f.is_empty() {
                f.push(Frag::Bytes(k));
            }
            f
        });
        let mode = prop_oneof![
            1 => vec((0u8..6, any::<bool>(), any::<u16>()), 0..5).prop_map(AMode::Direct),
            2 => (rops(8), prop_oneof![2 => Just(0u16), 2 => 0u16..400], 1u16..600, store())
                .prop_map(|(ops, prefetch, batch, store)| AMode::Download { ops, prefetch, batch, store }),
        ];
        (size, frags, any::<bool>(), mode).prop_map(|(size, frags, known, mode)| ReadCase { size, frags, known, mode }).boxed()
    },
    run: c24,
    case_limit_s: 60,
    shards: 8,
};

fn c24(case: &ReadCase) -> Outcome {
    let mut out = Outcome::default();
    let len = u64::from(case.size);
    let body = content(3, len);
    let reader = Fragmented { body: body.clone(), at: 0, frags: case.frags.clone(), next: 0, left: 0 };
    let length = case.known.then_some(len);
    match &case.mode {
        AMode::Direct(ops) => workers().block_on(async {
            let made = if ops.len() % 2 == 0 {
                AsyncReadStream::create(if case.known {
                    AsyncReadStreamParams::new(reader).content_length(len)
                } else {
                    AsyncReadStreamParams::new(reader)
                })
                .await
            } else {
                Ok(AsyncReadStream::new(reader, length))
            };
            let Ok(mut s) = made;
            if s.content_length() != length || s.supports_seek() {
                out.problem(format!("length {:?} instead of {length:?}, seekable {}", s.content_length(), s.supports_seek()));
            }
            let mut at = 0usize;
            let mut ended = false;
            let mut poll = async |s: &mut AsyncReadStream<Fragmented>, out: &mut Outcome| -> bool {
                match s.next().await {
                    None => {
                        if at != body.len() {
                            out.problem(format!("ended at {at} of {len}"));
                        }
                        false
                    }
                    Some(Err(e)) => {
                        out.problem(format!("failed at {at} of {len}: {e}"));
                        false
                    }
                    Some(Ok(b)) => {
                        if !body[at..].starts_with(&b) {
                            out.problem(format!("{} wrong bytes at {at} of {len}", b.len()));
                            return false;
                        }
                        at += b.len();
                        true
                    }
                }
            };
            for (n, reconnect, p) in ops {
                for _ in 0..*n {
                    if !ended {
                        ended = !poll(&mut s, &mut out).await;
                    }
                }
                let res = if *reconnect {
                    s.reconnect(u64::from(*p)).await
                } else {
                    s.seek_range(u64::from(*p), p.is_multiple_of(2).then(|| u64::from(*p) + 1)).await
                };
                match res {
                    Err(e) if e.kind() == io::ErrorKind::Unsupported => {}
                    r => out.problem(format!("a seek or reconnect request returned {r:?}")),
                }
                out.class("unsupported request");
                out.nontrivial |= !case.frags.is_empty();
            }
            while !ended && out.fail.is_none() {
                ended = !poll(&mut s, &mut out).await;
            }
        }),
        AMode::Download { ops, prefetch, batch, store } => {
            let settings = || {
                Settings::default()
                    .prefetch_bytes(u64::from(*prefetch))
                    .batch_write_size(NonZeroUsize::new(usize::from(*batch).max(1)).unwrap())
                    .retry_timeout(Duration::from_secs(3600))
            };
            let params = if case.known {
                AsyncReadStreamParams::new(reader).content_length(len)
            } else {
                AsyncReadStreamParams::new(reader)
            };
            let d = Driver { body: &body, known: case.known, errors_allowed: false, short_allowed: false };
            fn go<P: StorageProvider>(
                r: Result<StreamDownload<P>, StreamInitializationError<AsyncReadStream<Fragmented>>>,
                d: &Driver<'_>,
                length: Option<u64>,
                ops: &[ROp],
                out: &mut Outcome,
            ) {
                match r {
                    Err(e) => out.problem(format!("creation failed: {e}")),
                    Ok(mut r) => {
                        if r.content_length() != length {
                            out.problem(format!("length {:?} instead of {length:?}", r.content_length()));
                        }
                        d.play(&mut r, ops, true, out);
                    }
                }
            }
            match store {
                Store::Memory => go(
                    workers().block_on(StreamDownload::new_async_read(params, MemoryStorageProvider, settings())),
                    &d,
                    length,
                    ops,
                    &mut out,
                ),
                Store::Adaptive(n) if case.known => {
                    let p = AdaptiveStorageProvider::new(TempStorageProvider::new(), NonZeroUsize::new(usize::from(*n)).unwrap());
                    go(workers().block_on(StreamDownload::new_async_read(params, p, settings())), &d, length, ops, &mut out);
                }
                _ => go(
                    workers().block_on(StreamDownload::new_async_read(params, TempStorageProvider::new(), settings())),
                    &d,
                    length,
                    ops,
                    &mut out,
                ),
            }
            out.class("download");
            out.nontrivial |= !case.frags.is_empty() && ops.iter().any(|o| !matches!(o, ROp::Read(_)));
        }
    }
    out
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct InitCase {
    /// the source's creation error
    create: Option<String>,
    yields: u8,
    via_from: bool,
    length: Option<u64>,
    body: u16,
    /// kind and message of the storage's creation error
    storage: Option<(u8, String)>,
    capacity: Option<u16>,
    prefetch: u64,
    batch: u64,
    retry_ms: u64,
    cancel_on_drop: bool,
    /// order of the settings calls, and which value differs in the second set
    order: u8,
    differ: u8,
}

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::Interrupted,
];

#[derive(Default)]
struct Seen {
    sources: AtomicI64,
    stores: AtomicI64,
    asked: Mutex<Vec<Option<u64>>>,
    polled: AtomicU64,
    finished: AtomicU64,
    seeks: AtomicU64,
    created: AtomicBool,
}

struct InitSource {
    seen: Arc<Seen>,
    length: Option<u64>,
    body: u64,
    at: u64,
}
impl Drop for InitSource {
    fn drop(&mut self) {
        self.seen.sources.fetch_sub(1, Ordering::SeqCst);
    }
}
#[derive(Debug)]
struct InitError(String);
impl fmt::Display for InitError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "<{}>", self.0)
    }
}
impl StdError for InitError {}
impl DecodeError for InitError {
    async fn decode_error(self) -> String {
        tokio::task::yield_now().await;
        format!("[{}]", self.0)
    }
}
impl InitSource {
    async fn make(seen: Arc<Seen>, case: InitCase) -> Result<Self, InitError> {
        for _ in 0..case.yields {
            tokio::task::yield_now().await;
        }
        if let Some(e) = case.create {
            return Err(InitError(e));
        }
        seen.created.store(true, Ordering::SeqCst);
        seen.sources.fetch_add(1, Ordering::SeqCst);
        Ok(Self { seen, length: case.length, body: u64::from(case.body), at: 0 })
    }
}
impl Stream for InitSource {
    type Item = Result<Bytes, io::Error>;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.seen.polled.fetch_add(1, Ordering::SeqCst);
        if self.at >= self.body {
            return Poll::Ready(None);
        }
        let n = (self.body - self.at).min(100);
        let v: Vec<u8> = (self.at..self.at + n).map(|x| byte(9, x)).collect();
        self.at += n;
        Poll::Ready(Some(Ok(v.into())))
    }
}
impl SourceStream for InitSource {
    type Params = (Arc<Seen>, InitCase);
    type StreamCreationError = InitError;
    async fn create(p: Self::Params) -> Result<Self, InitError> {
        Self::make(p.0, p.1).await
    }
    fn content_length(&self) -> Option<u64> {
        self.length
    }
    fn supports_seek(&self) -> bool {
        false
    }
    async fn seek_range(&mut self, _: u64, _: Option<u64>) -> io::Result<()> {
        self.seen.seeks.fetch_add(1, Ordering::SeqCst);
        Err(io::Error::other("unsupported"))
    }
    async fn reconnect(&mut self, _: u64) -> io::Result<()> {
        Ok(())
    }
    async fn on_finish(&mut self, result: io::Result<()>, _: StreamOutcome) -> io::Result<()> {
        self.seen.finished.fetch_add(1, Ordering::SeqCst);
        result
    }
}

struct InitStore {
    seen: Arc<Seen>,
    fail: Option<(u8, String)>,
    capacity: Option<usize>,
}
impl Drop for InitStore {
    fn drop(&mut self) {
        self.seen.stores.fetch_sub(1, Ordering::SeqCst);
    }
}
struct Half {
    inner: MemoryStorage,
    seen: Arc<Seen>,
}
impl Drop for Half {
    fn drop(&mut self) {
        self.seen.stores.fetch_sub(1, Ordering::SeqCst);
    }
}
impl Read for Half {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.inner.read(buf)
    }
}
impl Seek for Half {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.inner.seek(p)
    }
}
impl io::Write for Half {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.inner.write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.inner.flush()
    }
}
impl StorageProvider for InitStore {
    type Reader = Half;
    type Writer = Half;
    fn into_reader_writer(self, content_length: Option<u64>) -> io::Result<(Half, Half)> {
        self.seen.asked.lock().unwrap().push(content_length);
        if let Some((k, m)) = &self.fail {
            return Err(io::Error::new(KINDS[usize::from(*k) % KINDS.len()], m.clone()));
        }
        let (r, w) = MemoryStorageProvider.into_reader_writer(None)?;
        self.seen.stores.fetch_add(2, Ordering::SeqCst);
        Ok((Half { inner: r, seen: self.seen.clone() }, Half { inner: w, seen: self.seen.clone() }))
    }
    fn max_capacity(&self) -> Option<usize> {
        self.capacity
    }
}

static C25: Check<InitCase> = Check {
    id: "C25",
    rule: "the source or the storage cannot be created, or the storage has a capacity limit",
    assumptions: &[],
    quick: 2_000_000,
    thorough: 50_000_000,
    strategy: || {
        let msg = || prop_oneof![3 => prop::sample::select(vec!["boom", "", "a: b", "é", "x\ny"]).prop_map(String::from), 1 => "[ -~]{0,20}"];
        let body = prop_oneof![3 => 0u16..300, 1 => Just(0u16)];
        let length = prop_oneof![
            3 => Just(None), 5 => Just(Some(true)), 1 => Just(Some(false))
        ];
        let s = (0u64..5000, prop_oneof![1 => 1u64..5000, 1 => Just(4096u64)], 1u64..100_000, any::<bool>(), any::<u8>(), 0u8..5);
        (
            prop::option::weighted(0.3, msg()),
            prop_oneof![2 => Just(0u8), 1 => 1u8..4],
            any::<bool>(),
            (length, body, any::<u64>()),
            prop::option::weighted(0.3, (any::<u8>(), msg())),
            prop::option::weighted(0.5, prop_oneof![3 => 1u16..60, 1 => 1u16..2000]),
            s,
        )
            .prop_map(|(create, yields, via_from, (l, body, any), storage, capacity, (prefetch, batch, retry_ms, cancel_on_drop, order, differ))| {
                let length = match l {
                    None => None,
                    Some(true) => Some(u64::from(body)),
                    // only sensible when nothing is downloaded
                    Some(false) if storage.is_some() => Some(any),
                    Some(false) => None,
                };
                InitCase { create, yields, via_from, length, body, storage, capacity, prefetch, batch, retry_ms, cancel_on_drop, order, differ }
            })
            .boxed()
    },
    run: |c| local(c25(c)),
    case_limit_s: 60,
    shards: 8,
};

fn make_settings(c: &InitCase, reverse: bool) -> Settings<InitSource> {
    let mut s = Settings::default();
    let mut steps = [0, 1, 2, 3];
    steps.rotate_left(usize::from(c.order) % 4);
    if reverse {
        steps.reverse();
    }
    for k in steps {
        s = match k {
            0 => s.prefetch_bytes(c.prefetch),
            1 => s.batch_write_size(NonZeroUsize::new(c.batch.max(1) as usize).unwrap()),
            2 => s.retry_timeout(Duration::from_millis(c.retry_ms)),
            _ => s.cancel_on_drop(c.cancel_on_drop),
        };
    }
    s
}

async fn c25(case: &InitCase) -> Outcome {
    let mut out = Outcome::default();
    // settings
    let settings = make_settings(case, false);
    if settings.get_prefetch_bytes() != case.prefetch || settings.get_write_batch_size() as u64 != case.batch.max(1) {
        out.problem(format!("settings report {settings:?}"));
    }
    if settings != make_settings(case, true) {
        out.problem("equal settings compare unequal");
    }
    let mut other = case.clone();
    match case.differ {
        0 => other.prefetch += 1,
        1 => other.batch += 1,
        2 => other.retry_ms += 1,
        3 => other.cancel_on_drop ^= true,
        _ => {}
    }
    if case.differ < 4 && settings == make_settings(&other, false) {
        out.problem(format!("settings with different values compare equal: {settings:?}"));
    }
    let documented = InitCase {
        prefetch: 256 * 1024,
        batch: 4096,
        retry_ms: 5000,
        cancel_on_drop: true,
        ..case.clone()
    };
    if Settings::default() != make_settings(&documented, false) {
        out.problem("the default settings are not the documented ones");
    }

    // construction
    let seen = Arc::new(Seen::default());
    seen.stores.fetch_add(1, Ordering::SeqCst);
    let store = InitStore { seen: seen.clone(), fail: case.storage.clone(), capacity: case.capacity.map(usize::from) };
    let made = if case.via_from {
        match InitSource::make(seen.clone(), InitCase { create: None, ..case.clone() }).await {
            Ok(s) => StreamDownload::from_stream(s, store, settings).await,
            Err(e) => return Outcome::fail(format!("harness: {e}")),
        }
    } else {
        StreamDownload::<InitStore>::new::<InitSource>((seen.clone(), case.clone()), store, settings).await
    };
    let asked = seen.asked.lock().unwrap().clone();
    let nothing_left = |out: &mut Outcome| {
        let (a, b) = (seen.sources.load(Ordering::SeqCst), seen.stores.load(Ordering::SeqCst));
        if a != 0 || b != 0 {
            out.problem(format!("after the failed creation {a} sources and {b} storages are alive"));
        }
    };
    let create_fails = case.create.is_some() && !case.via_from;
    match made {
        Err(e) => {
            nothing_left(&mut out);
            out.nontrivial = true;
            let shown = e.to_string();
            match (&e, create_fails, &case.storage) {
                (StreamInitializationError::StreamCreationFailure(i), true, _) => {
                    out.class("source creation fails");
                    let m = case.create.clone().unwrap_or_default();
                    if i.0 != m || !asked.is_empty() {
                        out.problem(format!("the error is {i:?} instead of {m:?}, the storage was asked {asked:?}"));
                    }
                    let decoded = e.decode_error().await;
                    if !shown.contains(&format!("<{m}>")) || !decoded.contains(&format!("[{m}]")) {
                        out.problem(format!("{m:?} is shown as {shown:?} and decoded as {decoded:?}"));
                    }
                }
                (StreamInitializationError::StorageCreationFailure(i), false, Some((k, m))) => {
                    out.class("storage creation fails");
                    if i.kind() != KINDS[usize::from(*k) % KINDS.len()] || !i.to_string().contains(m.as_str()) || asked != [case.length] {
                        out.problem(format!("the error is {i:?} instead of {m:?}, the storage was asked {asked:?}"));
                    }
                    let decoded = e.decode_error().await;
                    if !shown.contains(m.as_str()) || !decoded.contains(m.as_str()) {
                        out.problem(format!("{m:?} is shown as {shown:?} and decoded as {decoded:?}"));
                    }
                }
                _ => out.problem(format!("creation failed with {e:?}")),
            }
            for _ in 0..3 {
                tokio::task::yield_now().await;
            }
            if seen.polled.load(Ordering::SeqCst) != 0 || seen.finished.load(Ordering::SeqCst) != 0 {
                out.problem("a download was started in spite of the failed creation");
            }
        }
        Ok(mut r) => {
            if create_fails || case.storage.is_some() {
                return Outcome::fail("creation succeeded in spite of the error");
            }
            if asked != [case.length] {
                out.problem(format!("the storage was asked for {asked:?} instead of {:?}", case.length));
            }
            if r.content_length() != case.length {
                out.problem(format!("content length {:?} instead of {:?}", r.content_length(), case.length));
            }
            // let the download get through
            for _ in 0..5000 {
                if seen.finished.load(Ordering::SeqCst) > 0 {
                    break;
                }
                tokio::task::yield_now().await;
            }
            r.handle().wait_for_completion().await;
            if let Some(c) = case.capacity {
                out.class("capacity limit");
                out.nontrivial = true;
                let c = usize::from(c);
                let mut buf = vec![0; c + 1];
                for n in [c + 1, c] {
                    let got = r.read(&mut buf[..n]);
                    match got {
                        Err(e) if n > c && e.kind() == io::ErrorKind::InvalidInput => {}
                        Ok(k) if n <= c => {
                            let want = content(9, u64::from(case.body));
                            if k != c.min(want.len()) || buf[..k] != want[..k] {
                                out.problem(format!("a read of {n} returned {k} bytes of {}", case.body));
                            }
                        }
                        g => out.problem(format!("with a capacity of {c}, a read of {n} returned {g:?}")),
                    }
                }
                let pos = r.stream_position().unwrap_or(0);
                let limit = pos + c as u64;
                if case.length.is_none() {
                    match r.seek(SeekFrom::Start(limit + 1)) {
                        Err(e) if e.kind() == io::ErrorKind::InvalidInput => {}
                        g => out.problem(format!("with a capacity of {c}, a seek from {pos} to {} returned {g:?}", limit + 1)),
                    }
                }
            } else {
                let want = content(9, u64::from(case.body));
                let mut got = vec![];
                let res = r.read_to_end(&mut got);
                if res.is_err() || got != want {
                    out.problem(format!("read {} of {} bytes: {res:?}", got.len(), want.len()));
                }
            }
            if seen.finished.load(Ordering::SeqCst) != 1 || seen.seeks.load(Ordering::SeqCst) != 0 {
                out.problem("the download was not finished exactly once, or it was sought in");
            }
            drop(r);
            nothing_left(&mut out);
        }
    }
    out
}
