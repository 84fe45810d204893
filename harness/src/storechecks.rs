//! Properties of the storage layer: C14, C16, C17.
use std::cell::Cell;
use std::fs::File;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};
use std::num::NonZeroUsize;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::TempStorageProvider;
use stream_download::storage::{StorageProvider, StorageReader, StorageWriter};

use crate::runner::{AnyCheck, Check, Outcome};
use crate::sim::scratch;

pub const ALL: &[&dyn AnyCheck] = &[&C14, &C16, &C17];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum To {
    Start(u64),
    Cur(i64),
    End(i64),
}

impl To {
    fn from(self) -> SeekFrom {
        match self {
            To::Start(p) => SeekFrom::Start(p),
            To::Cur(p) => SeekFrom::Current(p),
            To::End(p) => SeekFrom::End(p),
        }
    }
    /// None: not a position
    fn resolve(self, cur: u64, end: u64) -> Option<u64> {
        match self {
            To::Start(p) => Some(p),
            To::Cur(o) => cur.checked_add_signed(o),
            To::End(o) => end.checked_add_signed(o),
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum SOp {
    Write(u16),
    Read(u16),
    /// reader and writer seeks
    RSeek(To),
    WSeek(To),
    /// Seek of the reader relative to what the bounded model retains (see `c14`), 0 = oldest.
    RWindow(u16),
    Flush,
    RPos,
    WPos,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Backend {
    Memory,
    Temp,
    /// fixed-size buffer that fails on any access outside of it
    Strict,
    /// like Strict, but reads and writes at most that many bytes at once
    Short(u8),
    /// like Strict, but what was written can only be read after a flush
    Buffered,
}

pub type BoxR = Box<dyn RS>;
pub type BoxW = Box<dyn WS>;
pub trait RS: Read + Seek + Send {}
impl<T: Read + Seek + Send> RS for T {}
pub trait WS: Write + Seek + Send {}
impl<T: Write + Seek + Send> WS for T {}

/// What the provider of the wrapped storage was asked for, and what was accessed outside.
#[derive(Default, Debug)]
pub struct Seen {
    created: Vec<Option<u64>>,
    outside: Vec<String>,
}

#[derive(Clone)]
pub struct Dyn {
    backend: Backend,
    fail: bool,
    seen: Arc<Mutex<Seen>>,
}

impl Dyn {
    fn new(backend: Backend) -> Self {
        Self { backend, fail: false, seen: Arc::default() }
    }
}

struct Strict {
    data: Arc<Mutex<Vec<u8>>>,
    pos: u64,
    limit: Option<u64>,
    max: usize,
    /// writes not flushed yet, when they are held back
    held: Option<Vec<(u64, Vec<u8>)>>,
    seen: Arc<Mutex<Seen>>,
}
impl Strict {
    fn apply(&self, at: u64, buf: &[u8]) {
        let (at, end) = (at as usize, at as usize + buf.len());
        let mut d = self.data.lock().unwrap();
        if d.len() < end {
            d.resize(end, 0);
        }
        d[at..end].copy_from_slice(buf);
    }
    fn check(&self, n: usize) {
        if let Some(limit) = self.limit
            && self.pos + n as u64 > limit
        {
            self.seen.lock().unwrap().outside.push(format!("{}..{} of {limit}", self.pos, self.pos + n as u64));
        }
    }
}
impl Read for Strict {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let d = self.data.lock().unwrap();
        let from = (self.pos as usize).min(d.len());
        let n = buf.len().min(d.len() - from).min(self.max);
        buf[..n].copy_from_slice(&d[from..from + n]);
        drop(d);
        self.check(n);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Strict {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = buf.len().min(self.max);
        self.check(n);
        let end = self.pos as usize + n;
        if end > 1 << 20 {
            return Err(io::Error::other("write far outside of the storage"));
        }
        if let Some(held) = &mut self.held {
            held.push((self.pos, buf[..n].to_vec()));
        } else {
            self.apply(self.pos, &buf[..n]);
        }
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        for (at, buf) in std::mem::take(self.held.as_mut().unwrap_or(&mut vec![])) {
            self.apply(at, &buf);
        }
        Ok(())
    }
}
impl Seek for Strict {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let end = self.data.lock().unwrap().len() as u64;
        let p = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::Current(o) => self.pos.checked_add_signed(o),
            SeekFrom::End(o) => end.checked_add_signed(o),
        };
        self.pos = p.ok_or_else(|| io::Error::from(ErrorKind::InvalidInput))?;
        Ok(self.pos)
    }
}

impl StorageProvider for Dyn {
    type Reader = BoxR;
    type Writer = Box<dyn WS>;
    fn into_reader_writer(self, len: Option<u64>) -> io::Result<(BoxR, Box<dyn WS>)> {
        self.seen.lock().unwrap().created.push(len);
        if self.fail {
            return Err(io::Error::new(ErrorKind::StorageFull, "no storage today"));
        }
        fn bx<R: StorageReader + 'static, W: StorageWriter>((r, w): (R, W)) -> (BoxR, BoxW) {
            (Box::new(r), Box::new(w))
        }
        let strict = |max, held: bool| {
            let data = Arc::new(Mutex::new(Vec::new()));
            let mk = || Strict {
                data: data.clone(),
                pos: 0,
                limit: len,
                max,
                held: held.then(Vec::new),
                seen: self.seen.clone(),
            };
            bx((mk(), mk()))
        };
        Ok(match self.backend {
            Backend::Memory => bx(MemoryStorageProvider.into_reader_writer(len)?),
            Backend::Temp => bx(TempStorageProvider::new_in(scratch()).into_reader_writer(len)?),
            Backend::Strict => strict(usize::MAX, false),
            Backend::Short(n) => strict(usize::from(n.max(1)), false),
            Backend::Buffered => strict(usize::MAX, true),
        })
    }
}

fn backend() -> impl Strategy<Value = Backend> {
    prop_oneof![
        6 => Just(Backend::Memory),
        1 => Just(Backend::Temp),
        6 => Just(Backend::Strict),
        3 => (1u8..5).prop_map(Backend::Short),
        3 => Just(Backend::Buffered),
    ]
}

struct Pattern(Cell<u64>);
impl Pattern {
    fn bytes(&self, n: usize) -> Vec<u8> {
        (0..n)
            .map(|_| {
                let x = self.0.get().wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
                self.0.set(x);
                // never zero: zeros are what unwritten parts look like
                ((x >> 33) % 255) as u8 + 1
            })
            .collect()
    }
}

const ASSUME: &[&str] = &["operations on the two halves are interleaved on one thread; both halves lock around each operation"];

// ---------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct BoundedCase {
    backend: Backend,
    size: u32,
    content: Option<u64>,
    ops: Vec<SOp>,
}

static C14: Check<BoundedCase> = Check {
    id: "C14",
    rule: "more than the capacity was written (the buffer wrapped around) and data was read back after that",
    assumptions: ASSUME,
    quick: 2_000_000,
    thorough: 40_000_000,
    strategy: || {
        let size = prop_oneof![600 => 1u32..12, 200 => 12u32..70, 100 => 70u32..300, 1 => 300u32..20_000, 1 => (0u32..5).prop_map(|k| 8190 + k)];
        (size, any::<bool>(), 0u32..10)
            .prop_flat_map(|(size, known, mode)| {
                let content = if known {
                    prop_oneof![
                        2 => (0..=u64::from(size)).prop_map(Some),
                        3 => (u64::from(size)..u64::from(size) * 4 + 2).prop_map(Some),
                    ]
                    .boxed()
                } else {
                    Just(None).boxed()
                };
                let n = size as u16;
                let len = prop_oneof![4 => 0..=n + 2, 2 => Just(n), 2 => 0..=n / 2 + 1, 1 => Just(1u16)];
                let p = prop_oneof![4 => 0..u64::from(size) * 3 + 3, 1 => any::<u64>().prop_map(|p| p % (1 << 40))];
                // a few cases also move the writer
                let base = prop_oneof![
                    10 => len.clone().prop_map(SOp::Write),
                    10 => len.prop_map(SOp::Read),
                    4 => any::<u16>().prop_map(SOp::RWindow),
                    1 => p.clone().prop_map(|p| SOp::RSeek(To::Start(p))),
                    2 => (-i64::from(size) - 2..=i64::from(size) + 2).prop_map(|p| SOp::RSeek(To::Cur(p))),
                    1 => (-3i64..3).prop_map(|p| SOp::RSeek(To::End(p))),
                    1 => Just(SOp::Flush),
                    1 => Just(SOp::RPos),
                    1 => Just(SOp::WPos),
                ];
                let op = if mode < 3 {
                    prop_oneof![
                        15 => base,
                        1 => p.prop_map(|p| SOp::WSeek(To::Start(p))),
                        1 => (-i64::from(size) - 2..=i64::from(size) + 2).prop_map(|p| SOp::WSeek(To::Cur(p))),
                    ]
                    .boxed()
                } else {
                    base.boxed()
                };
                (backend(), Just(size), content, vec(op, 0..50))
            })
            .prop_map(|(backend, size, content, ops)| BoundedCase { backend, size, content, ops })
            .boxed()
    },
    run: c14,
    case_limit_s: 60,
    shards: 8,
};

fn c14(case: &BoundedCase) -> Outcome {
    let mut out = Outcome::default();
    let size = u64::from(case.size.max(1));
    let phys = case.content.map_or(size, |c| c.min(size));
    let whole = case.content.is_some_and(|c| c <= size);
    let inner = Dyn::new(case.backend);
    let seen = inner.seen.clone();
    let provider = BoundedStorageProvider::new(inner, NonZeroUsize::new(size as usize).unwrap());
    if provider.max_capacity() != Some(size as usize) {
        out.problem(format!("max_capacity of a buffer of {size} is {:?}", provider.max_capacity()));
    }
    let (mut r, mut w) = match provider.into_reader_writer(case.content) {
        Ok(x) => x,
        Err(e) => return Outcome::fail(format!("creation failed: {e}")),
    };
    if seen.lock().unwrap().created != [Some(phys)] {
        out.problem(format!("the wrapped storage was created as {:?} instead of with {phys}", seen.lock().unwrap().created));
    }
    let pat = Pattern(Cell::new(7));
    // last byte written per position, start of the contiguous data before the writer
    let mut data: std::collections::BTreeMap<u64, u8> = std::collections::BTreeMap::new();
    let (mut rp, mut wp, mut lo, mut end) = (0u64, 0u64, 0u64, 0u64);
    let mut lagging = false;
    let (mut wrapped, mut read_back) = (false, false);
    for (i, op) in case.ops.iter().enumerate() {
        let all = whole && end <= phys;
        let retained = if all { 0..=end } else { lo..=wp };
        let op = match *op {
            SOp::RWindow(n) => {
                let span = retained.end() - retained.start() + 1;
                SOp::RSeek(To::Start(retained.start() + u64::from(n) % span))
            }
            op => op,
        };
        let at = || format!("op {i} {op:?} (reader {rp}, writer {wp}, retained {retained:?}, size {phys})");
        match op {
            SOp::Write(n) => {
                let buf = pat.bytes(usize::from(n));
                let taken = if lagging { wp - lo } else { wp.saturating_sub(rp) };
                let want = phys.saturating_sub(taken).min(u64::from(n));
                match w.write(&buf) {
                    Ok(got) if got as u64 == want => {
                        for (k, b) in buf[..got].iter().enumerate() {
                            data.insert(wp + k as u64, *b);
                        }
                        wp += want;
                        if want > 0 {
                            end = end.max(wp);
                        }
                        lo = lo.max(wp.saturating_sub(phys));
                        wrapped |= wp > phys;
                    }
                    res => {
                        out.problem(format!("{}: {want} bytes fit, write returned {res:?}", at()));
                        return out;
                    }
                }
            }
            SOp::Read(n) => {
                let mut buf = vec![0xEE; usize::from(n)];
                let res = r.read(&mut buf);
                let n = u64::from(n);
                if n > phys {
                    if !matches!(&res, Err(e) if e.kind() == ErrorKind::InvalidInput) {
                        out.problem(format!("{}: the buffer is larger than the storage, got {res:?}", at()));
                        return out;
                    }
                } else if rp < *retained.start() {
                    if !matches!(&res, Err(e) if e.kind() == ErrorKind::InvalidInput) {
                        out.problem(format!("{}: the position has been overwritten, got {res:?}", at()));
                        return out;
                    }
                } else {
                    let avail = retained.end().saturating_sub(rp).min(n);
                    match res {
                        Ok(got) if got as u64 <= avail && (got > 0 || avail == 0) => {
                            for (k, b) in buf[..got].iter().enumerate() {
                                // parts skipped by the writer have no defined content
                                if data.get(&(rp + k as u64)).is_some_and(|d| d != b) {
                                    out.problem(format!("{}: wrong byte at {}", at(), rp + k as u64));
                                    return out;
                                }
                            }
                            if got as u64 != avail && all {
                                out.class("short");
                            }
                            rp += got as u64;
                            if got > 0 {
                                lagging = false;
                                read_back |= wrapped;
                            }
                        }
                        res => {
                            out.problem(format!("{}: {avail} bytes are available, got {res:?}", at()));
                            return out;
                        }
                    }
                }
            }
            SOp::RSeek(to) | SOp::WSeek(to) => {
                let reader = matches!(op, SOp::RSeek(_));
                let cur = if reader { rp } else { wp };
                let res = if reader { r.seek(to.from()) } else { w.seek(to.from()) };
                let expected = match to {
                    To::End(_) => None,
                    to => to.resolve(cur, 0),
                };
                match (expected, res) {
                    (None, Err(_)) => out.class("rejected seek"),
                    (Some(p), Ok(got)) if p == got => {
                        if reader {
                            rp = p;
                            lagging = false;
                            if p > wp {
                                out.class("reader ahead of the writer");
                            }
                            if p < *retained.start() {
                                out.class("reader behind the window");
                            }
                        } else {
                            if !(lo..=wp).contains(&p) {
                                lo = p;
                                lagging = true;
                                out.class("writer jumped");
                            }
                            wp = p;
                        }
                    }
                    (e, res) => {
                        out.problem(format!("{}: expected {e:?}, got {res:?}", at()));
                        return out;
                    }
                }
            }
            SOp::RPos => {
                // (a seek by 0)
                lagging = false;
                if !matches!(r.stream_position(), Ok(p) if p == rp) {
                    out.problem(format!("op {i}: reader position {:?} instead of {rp}", r.stream_position()));
                }
            }
            SOp::WPos => {
                if !matches!(w.stream_position(), Ok(p) if p == wp) {
                    out.problem(format!("{}: writer position {:?}", at(), w.stream_position()));
                }
            }
            SOp::Flush => {
                if let Err(e) = w.flush() {
                    out.problem(format!("{}: {e}", at()));
                }
            }
            SOp::RWindow(_) => unreachable!(),
        }
    }
    if let Some(o) = seen.lock().unwrap().outside.first() {
        out.problem(format!("the wrapped storage of {phys} bytes was accessed at {o}"));
    }
    if phys < size {
        out.class("limited by the content length");
    }
    if wrapped {
        out.class("wrapped around");
    }
    out.nontrivial = read_back;
    out
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct AdaptiveCase {
    fixed: Backend,
    variable: Backend,
    fail: (bool, bool),
    same_provider: bool,
    size: u32,
    content: Option<u64>,
    ops: Vec<SOp>,
}

static C16: Check<AdaptiveCase> = Check {
    id: "C16",
    rule: "the storage was created and at least one non-empty write and one non-empty read were compared",
    assumptions: ASSUME,
    quick: 2_000_000,
    thorough: 40_000_000,
    strategy: || {
        (prop_oneof![300 => 1u32..40, 1 => 40u32..20_000, 1 => (0u32..5).prop_map(|k| 8190 + k)], 0u32..8)
            .prop_flat_map(|(size, mode)| {
                let s = u64::from(size);
                let content = match mode {
                    0 | 1 => Just(None).boxed(),
                    2 | 3 => (0..=s).prop_map(Some).boxed(),
                    4 => (s - 1..=s + 1).prop_map(Some).boxed(),
                    5 => prop_oneof![Just(0), Just(1), Just(s), Just(s + 1)].prop_map(Some).boxed(),
                    _ => (s + 1..s * 3 + 3).prop_map(Some).boxed(),
                };
                let n = size as u16;
                let span = i64::from(size) * 2 + 2;
                let to = || {
                    prop_oneof![
                        3 => (0..s * 3).prop_map(To::Start),
                        3 => (-span..span).prop_map(To::Cur),
                        1 => (-span..span).prop_map(To::End),
                    ]
                };
                let op = prop_oneof![
                    6 => (0..=n + 2).prop_map(SOp::Write),
                    6 => (0..=n + 2).prop_map(SOp::Read),
                    3 => to().prop_map(SOp::RSeek),
                    1 => to().prop_map(SOp::WSeek),
                    1 => Just(SOp::Flush),
                    1 => Just(SOp::RPos),
                    1 => Just(SOp::WPos),
                ];
                (
                    backend(),
                    backend(),
                    (prop::bool::weighted(0.04), prop::bool::weighted(0.04)),
                    any::<bool>(),
                    Just(size),
                    content,
                    vec(op, 0..40),
                )
            })
            .prop_map(|(fixed, variable, fail, same_provider, size, content, ops)| AdaptiveCase {
                fixed,
                variable,
                fail,
                same_provider,
                size,
                content,
                ops,
            })
            .boxed()
    },
    run: c16,
    case_limit_s: 60,
    shards: 8,
};

fn show<T: std::fmt::Debug>(r: &io::Result<T>) -> String {
    match r {
        Ok(v) => format!("Ok({v:?})"),
        Err(e) => format!("Err({:?}: {e})", e.kind()),
    }
}

fn c16(case: &AdaptiveCase) -> Outcome {
    let mut out = Outcome::default();
    let size = case.size.max(1);
    let cap = NonZeroUsize::new(size as usize).unwrap();
    let mut f = Dyn::new(case.fixed);
    f.fail = case.fail.0;
    let mut v = if case.same_provider { f.clone() } else { Dyn::new(case.variable) };
    if !case.same_provider {
        v.fail = case.fail.1;
    }
    // `new` clones the provider, so both record into the same place
    let (fs, vs) = (f.seen.clone(), v.seen.clone());
    // the reference
    let selected_variable = case.content.is_some_and(|c| c > u64::from(size));
    let mut reference = if selected_variable { v.clone() } else { f.clone() };
    reference.seen = Arc::default();
    let direct: io::Result<(BoxR, BoxW)> = match case.content {
        None => BoundedStorageProvider::new(reference, cap).into_reader_writer(None).map(|(r, w)| {
            let x: (BoxR, BoxW) = (Box::new(r), Box::new(w));
            x
        }),
        Some(c) => reference.into_reader_writer(Some(c)),
    };
    let adaptive = if case.same_provider {
        AdaptiveStorageProvider::new(f, cap)
    } else {
        AdaptiveStorageProvider::with_fixed_and_variable(f, v, cap)
    };
    let res = adaptive.into_reader_writer(case.content);
    let fc = fs.lock().unwrap().created.clone();
    let vc = vs.lock().unwrap().created.clone();
    let expected = match case.content {
        None => (vec![Some(u64::from(size))], vec![]),
        Some(c) if c <= u64::from(size) => (vec![Some(c)], vec![]),
        Some(c) => (vec![], vec![Some(c)]),
    };
    if case.same_provider {
        let e = [expected.0, expected.1].concat();
        if fc != e {
            out.problem(format!("created {fc:?}, expected {e:?}"));
        }
    } else if (&fc, &vc) != (&expected.0, &expected.1) {
        out.problem(format!("created {fc:?} and {vc:?}, expected {expected:?}"));
    }
    out.class(match case.content {
        None => "bounded",
        Some(_) if selected_variable => "variable",
        Some(_) => "fixed",
    });
    let ((mut r, mut w), (mut dr, mut dw)) = match (res, direct) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(a), Err(b)) => {
            out.class("creation failed");
            if a.kind() != b.kind() || a.to_string() != b.to_string() {
                out.problem(format!("creation error {a:?} instead of {b:?}"));
            }
            return out;
        }
        (a, b) => {
            out.problem(format!("creation: {:?} instead of {:?}", a.is_ok(), b.is_ok()));
            return out;
        }
    };
    let pat = Pattern(Cell::new(99));
    let (mut wrote, mut read) = (false, false);
    for (i, op) in case.ops.iter().enumerate() {
        let (a, b) = match *op {
            SOp::Write(n) => {
                let buf = pat.bytes(usize::from(n));
                let (a, b) = (w.write(&buf), dw.write(&buf));
                wrote |= matches!(a, Ok(n) if n > 0);
                (show(&a), show(&b))
            }
            SOp::Read(n) => {
                let (mut x, mut y) = (vec![0xEE; usize::from(n)], vec![0xEE; usize::from(n)]);
                let (a, b) = (r.read(&mut x), dr.read(&mut y));
                read |= matches!(a, Ok(n) if n > 0);
                if x != y {
                    out.problem(format!("op {i} {op:?}: the bytes differ"));
                }
                (show(&a), show(&b))
            }
            SOp::RSeek(to) => (show(&r.seek(to.from())), show(&dr.seek(to.from()))),
            SOp::WSeek(to) => (show(&w.seek(to.from())), show(&dw.seek(to.from()))),
            SOp::Flush => (show(&w.flush()), show(&dw.flush())),
            SOp::RPos => (show(&r.stream_position()), show(&dr.stream_position())),
            SOp::WPos => (show(&w.stream_position()), show(&dw.stream_position())),
            SOp::RWindow(_) => continue,
        };
        if a != b && !same_path_error(&a, &b) {
            out.problem(format!("op {i} {op:?}: {a} through the wrapper, {b} directly"));
            break;
        }
    }
    out.nontrivial = wrote && read;
    out
}

/// Errors of temporary files contain the path of the file.
fn same_path_error(a: &str, b: &str) -> bool {
    let cut = |s: &str| s.split(" at path").next().unwrap_or("").to_string();
    a.starts_with("Err") && a.contains(" at path") && cut(a) == cut(b)
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum TempHow {
    /// directory, prefix
    Dir,
    PrefixDir,
    Builder,
    /// system default location (TMPDIR is the scratch directory)
    Default,
    Prefix,
    MissingDir,
    FailingBuilder,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FileKind {
    Memory,
    Temp { how: TempHow, writer_first: bool, clone: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FileCase {
    kind: FileKind,
    content: Option<u64>,
    ops: Vec<SOp>,
}

static C17: Check<FileCase> = Check {
    id: "C17",
    rule: "data was read back after being written, and a seek was made or a position was written twice",
    assumptions: &[
        "operations on the two halves are interleaved on one thread; both halves lock around each operation",
        "temporary files are compared with two handles to an ordinary file",
    ],
    quick: 1_200_000,
    thorough: 40_000_000,
    strategy: || {
        let to = || {
            prop_oneof![
                6 => (0u64..80).prop_map(To::Start),
                1 => (0u64..20_000).prop_map(To::Start),
                5 => (-60i64..60).prop_map(To::Cur),
                3 => (-60i64..30).prop_map(To::End),
                1 => prop_oneof![Just(i64::MIN), Just(i64::MIN + 1), -5000i64..0].prop_map(To::Cur),
                1 => prop_oneof![Just(i64::MIN), -5000i64..0].prop_map(To::End),
            ]
        };
        // only the reader may go to positions that nobody could write at
        let far = prop_oneof![
            Just(To::Start(u64::MAX)),
            Just(To::Start(1 << 62)),
            Just(To::Cur(i64::MAX)),
            Just(To::End(i64::MAX)),
        ];
        let len = || prop_oneof![80 => 0u16..40, 10 => 40u16..400, 9 => Just(9000u16), 1 => 400u16..40_000];
        let op = prop_oneof![
            8 => len().prop_map(SOp::Write),
            8 => len().prop_map(SOp::Read),
            5 => to().prop_map(SOp::RSeek),
            1 => far.prop_map(SOp::RSeek),
            4 => to().prop_map(SOp::WSeek),
            1 => Just(SOp::Flush),
            1 => Just(SOp::RPos),
            1 => Just(SOp::WPos),
        ];
        let how = prop_oneof![
            4 => Just(TempHow::Dir),
            2 => Just(TempHow::PrefixDir),
            2 => Just(TempHow::Builder),
            1 => Just(TempHow::Default),
            1 => Just(TempHow::Prefix),
            1 => Just(TempHow::MissingDir),
            1 => Just(TempHow::FailingBuilder),
        ];
        let kind = prop_oneof![
            7 => Just(FileKind::Memory),
            1 => (how, any::<bool>(), any::<bool>()).prop_map(|(how, writer_first, clone)| FileKind::Temp { how, writer_first, clone }),
        ];
        (kind, prop::option::of(prop_oneof![30 => 0u64..60, 1 => 60u64..60_000]), vec(op, 0..40))
            .prop_map(|(kind, content, ops)| FileCase { kind, content, ops })
            .boxed()
    },
    run: c17,
    case_limit_s: 60,
    shards: 8,
};

static NEXT: AtomicU64 = AtomicU64::new(0);

fn entries(dir: &Path) -> Vec<PathBuf> {
    std::fs::read_dir(dir)
        .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect())
        .unwrap_or_default()
}

/// The reference: two handles to an ordinary file, or a model of the preallocated buffer.
enum Reference {
    Files(File, File),
    Model { data: Vec<u8>, prealloc: u64, r: u64, w: u64 },
}

impl Reference {
    fn write(&mut self, buf: &[u8]) -> Result<u64, ErrorKind> {
        match self {
            Self::Files(_, w) => w.write(buf).map(|n| n as u64).map_err(|e| e.kind()),
            Self::Model { data, w, .. } => {
                if !buf.is_empty() {
                    let end = *w as usize + buf.len();
                    if data.len() < end {
                        data.resize(end, 0);
                    }
                    data[*w as usize..end].copy_from_slice(buf);
                    *w = end as u64;
                }
                Ok(buf.len() as u64)
            }
        }
    }
    /// Reads up to n bytes.
    fn read(&mut self, n: usize) -> Result<Vec<u8>, ErrorKind> {
        match self {
            Self::Files(r, _) => {
                let mut buf = vec![0; n];
                let got = r.read(&mut buf).map_err(|e| e.kind())?;
                buf.truncate(got);
                Ok(buf)
            }
            Self::Model { data, r, .. } => {
                let from = (*r).min(data.len() as u64) as usize;
                let to = (from + n).min(data.len());
                *r += (to - from) as u64;
                Ok(data[from..to].to_vec())
            }
        }
    }
    fn seek(&mut self, reader: bool, to: To) -> Result<u64, ErrorKind> {
        match self {
            Self::Files(r, w) => (if reader { r } else { w }).seek(to.from()).map_err(|e| e.kind()),
            Self::Model { data, prealloc, r, w } => {
                let end = (*prealloc).max(data.len() as u64);
                let pos = if reader { r } else { w };
                *pos = to.resolve(*pos, end).ok_or(ErrorKind::InvalidInput)?;
                Ok(*pos)
            }
        }
    }
}

fn c17(case: &FileCase) -> Outcome {
    let mut out = Outcome::default();
    let mut dir = None;
    let id = NEXT.fetch_add(1, Ordering::Relaxed);
    let made: (io::Result<(BoxR, BoxW)>, Reference) = match &case.kind {
        FileKind::Memory => (
            MemoryStorageProvider.into_reader_writer(case.content).map(|(r, w)| {
                let x: (BoxR, BoxW) = (Box::new(r), Box::new(w));
                x
            }),
            Reference::Model { data: vec![], prealloc: case.content.unwrap_or(0), r: 0, w: 0 },
        ),
        FileKind::Temp { how, clone, .. } => {
            let base = scratch().join(format!("c17-{id}"));
            let d = base.join("storage");
            if std::fs::create_dir_all(&d).is_err() {
                return out;
            }
            let file = base.join("reference");
            let Ok(w) = File::create(&file) else { return out };
            let Ok(r) = File::open(&file) else { return out };
            let unique = format!("pre{id}x");
            let provider = match how {
                TempHow::Dir => TempStorageProvider::new_in(d.clone()),
                TempHow::PrefixDir => TempStorageProvider::with_prefix_in(unique.clone(), d.clone()),
                TempHow::Builder => {
                    let (d, u) = (d.clone(), unique.clone());
                    TempStorageProvider::with_tempfile_builder(move || {
                        tempfile::Builder::new().suffix(&format!("{u}.suffix")).tempfile_in(&d)
                    })
                }
                TempHow::Default => TempStorageProvider::new(),
                TempHow::Prefix => TempStorageProvider::with_prefix(unique.clone()),
                TempHow::MissingDir => TempStorageProvider::new_in(d.join("missing")),
                TempHow::FailingBuilder => TempStorageProvider::with_tempfile_builder(|| {
                    Err(io::Error::new(ErrorKind::QuotaExceeded, "builder says no"))
                }),
            };
            dir = Some((base, d.clone(), unique.clone()));
            let keep = clone.then(|| provider.clone());
            let res = provider.into_reader_writer(case.content);
            // the file is where it was asked for
            let files = entries(&d);
            let name = |p: &PathBuf| p.file_name().unwrap_or_default().to_string_lossy().into_owned();
            match how {
                TempHow::Dir if files.len() != 1 => out.problem(format!("files in the directory: {files:?}")),
                TempHow::PrefixDir if files.len() != 1 || !name(&files[0]).starts_with(&unique) => {
                    out.problem(format!("files in the directory: {files:?}, prefix {unique}"));
                }
                TempHow::Builder if files.len() != 1 || !name(&files[0]).ends_with(&format!("{unique}.suffix")) => {
                    out.problem(format!("files in the directory: {files:?}, suffix {unique}.suffix"));
                }
                TempHow::Default | TempHow::MissingDir | TempHow::FailingBuilder if !files.is_empty() => {
                    out.problem(format!("unexpected files {files:?}"));
                }
                TempHow::Prefix => {
                    let n = entries(&std::env::temp_dir()).iter().filter(|p| name(p).starts_with(&unique)).count();
                    if n != 1 {
                        out.problem(format!("{n} files with the prefix {unique} in the default directory"));
                    }
                }
                _ => {}
            }
            // a second storage from the same provider is independent of the first one
            if let (Some(p), Ok(_)) = (keep, &res) {
                match p.into_reader_writer(case.content) {
                    Ok((_, mut w2)) => {
                        let _ = w2.write(b"something else");
                    }
                    Err(e) => out.problem(format!("a clone of the provider failed: {e}")),
                }
            }
            (
                res.map(|(r, w)| {
                    let x: (BoxR, BoxW) = (Box::new(r), Box::new(w));
                    x
                }),
                Reference::Files(r, w),
            )
        }
    };
    let (res, mut reference) = made;
    let must_fail = match &case.kind {
        FileKind::Temp { how: TempHow::MissingDir, .. } => Some(ErrorKind::NotFound),
        FileKind::Temp { how: TempHow::FailingBuilder, .. } => Some(ErrorKind::QuotaExceeded),
        _ => None,
    };
    match (res, must_fail) {
        (Err(e), Some(kind)) => {
            out.class("creation failed");
            if e.kind() != kind {
                out.problem(format!("creation failed with {e:?}"));
            }
        }
        (Ok(_), Some(_)) => out.problem("the storage was created although its file could not be"),
        (Err(e), None) => out.problem(format!("creation failed: {e}")),
        (Ok((r, w)), None) => {
            drive(case, r, w, &mut reference, &mut out);
            if let FileKind::Temp { how, .. } = &case.kind {
                out.class("temporary file");
                if matches!(how, TempHow::Default | TempHow::Prefix) {
                    out.class("default directory");
                }
            }
        }
    }
    if let Some((base, d, unique)) = dir {
        let left = entries(&d);
        if !left.is_empty() {
            out.problem(format!("left behind: {left:?}"));
        }
        if entries(&std::env::temp_dir()).iter().any(|p| p.to_string_lossy().contains(&unique)) {
            out.problem(format!("left behind in the default directory: {unique}"));
        }
        let _ = std::fs::remove_dir_all(base);
    }
    out
}

fn drive(case: &FileCase, mut r: BoxR, mut w: BoxW, reference: &mut Reference, out: &mut Outcome) {
    let pat = Pattern(Cell::new(3));
    let (mut seeks, mut back) = (0, 0);
    for (i, op) in case.ops.iter().enumerate() {
        match *op {
            SOp::Write(n) => {
                let buf = pat.bytes(usize::from(n));
                let res = w.write(&buf).map(|n| n as u64).map_err(|e| e.kind());
                let exp = reference.write(&buf);
                if res != exp {
                    out.problem(format!("op {i} {op:?}: {res:?} instead of {exp:?}"));
                    return;
                }
            }
            SOp::Read(n) => {
                let mut buf = vec![0xEE; usize::from(n)];
                let res = r.read(&mut buf).map_err(|e| e.kind());
                let exp = reference.read(usize::from(n));
                match (&res, &exp) {
                    (Ok(got), Ok(e)) => {
                        // fewer bytes are fine as long as there are any
                        if *got > e.len() || (*got == 0 && !e.is_empty()) || buf[..*got] != e[..*got] {
                            out.problem(format!("op {i} {op:?}: read {got} bytes, expected {}, or different ones", e.len()));
                            return;
                        }
                        if *got < e.len() && reference.seek(true, To::Cur(*got as i64 - e.len() as i64)).is_err() {
                            return;
                        }
                        back += usize::from(*got > 0);
                    }
                    (Err(a), Err(b)) if a == b => {}
                    _ => {
                        out.problem(format!("op {i} {op:?}: {res:?} instead of {exp:?}"));
                        return;
                    }
                }
            }
            SOp::RSeek(to) | SOp::WSeek(to) => {
                let reader = matches!(op, SOp::RSeek(_));
                let res = if reader { r.seek(to.from()) } else { w.seek(to.from()) }.map_err(|e| e.kind());
                let exp = reference.seek(reader, to);
                if res != exp && !(res.is_err() && exp.is_err()) {
                    out.problem(format!("op {i} {op:?}: {res:?} instead of {exp:?}"));
                    return;
                }
                seeks += 1;
            }
            SOp::RPos | SOp::WPos => {
                let reader = matches!(op, SOp::RPos);
                let res = if reader { r.stream_position() } else { w.stream_position() }.map_err(|e| e.kind());
                let exp = reference.seek(reader, To::Cur(0));
                if res != exp {
                    out.problem(format!("op {i} {op:?}: {res:?} instead of {exp:?}"));
                    return;
                }
            }
            SOp::Flush => {
                if let Err(e) = w.flush() {
                    out.problem(format!("op {i} flush: {e}"));
                    return;
                }
            }
            SOp::RWindow(_) => {}
        }
    }
    out.nontrivial = back > 0 && seeks > 0;
    if let FileKind::Temp { writer_first, .. } = case.kind {
        // the file belongs to the reader
        if writer_first {
            drop(w);
            drop(r);
        } else {
            drop(r);
            drop(w);
        }
    }
}
