//! Download tasks that end without having been asked to: something panics or the runtime goes away (C11).
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::num::NonZeroUsize;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{Arc, mpsc};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

use bytes::Bytes;
use futures_util::Stream;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use stream_download::source::{SourceStream, StreamOutcome};
use stream_download::storage::StorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::TempStorageProvider;
use stream_download::{Settings, StreamDownload};
use tokio::sync::Notify;

use crate::netchecks::content;
use crate::runner::{AnyCheck, Check, Outcome};
use crate::sim::QUIET;

pub const ALL: &[&dyn AnyCheck] = &[&C11];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Death {
    No,
    /// the n-th item of the source
    Poll(u16),
    /// the n-th seek of the source
    Seek(u8),
    /// the source falls silent before its n-th item and can't be reconnected
    Reconnect(u16),
    /// the same, but it is the callback that fails
    Reconnected(u16),
    /// the n-th progress report
    Progress(u16),
    Finish,
    Write(u16),
    Flush(u16),
    /// the runtime is shut down before the n-th item; 0: before anything runs
    Shutdown(u16),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum DOp {
    Read(u16),
    /// as a fraction of the length
    Seek(u16),
    /// microseconds
    Pause(u8),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum DStore {
    Memory,
    Temp,
    Bounded(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DeathCase {
    len: u16,
    known: bool,
    seekable: bool,
    chunk: u16,
    death: Death,
    store: DStore,
    prefetch: u16,
    batch: u16,
    ops: Vec<DOp>,
    handles: u8,
    threads: bool,
    background: bool,
}

static C11: Check<DeathCase> = Check {
    id: "C11",
    rule: "the task died before the download was over",
    assumptions: &["the interleaving of reader and download task is left to the runtime and the system"],
    quick: 160_000,
    thorough: 3_000_000,
    strategy: || {
        let n = || prop_oneof![3 => 0u16..6, 1 => 0u16..40];
        let death = prop_oneof![
            1 => Just(Death::No),
            3 => n().prop_map(Death::Poll),
            2 => (0u8..3).prop_map(Death::Seek),
            1 => n().prop_map(Death::Reconnect),
            1 => n().prop_map(Death::Reconnected),
            2 => n().prop_map(Death::Progress),
            2 => Just(Death::Finish),
            2 => n().prop_map(Death::Write),
            2 => n().prop_map(Death::Flush),
            4 => n().prop_map(Death::Shutdown),
        ];
        let op = prop_oneof![
            4 => (0u16..60).prop_map(DOp::Read),
            1 => (0u16..600).prop_map(DOp::Read),
            3 => any::<u16>().prop_map(DOp::Seek),
            1 => (1u8..200).prop_map(DOp::Pause),
        ];
        let st = prop_oneof![3 => Just(DStore::Memory), 1 => Just(DStore::Temp), 2 => (1u16..100).prop_map(DStore::Bounded)];
        (
            (prop_oneof![1 => 0u16..4, 4 => 1u16..400], any::<bool>(), prop::bool::weighted(0.7), prop_oneof![1u16..20, 1u16..200]),
            death,
            st,
            (prop_oneof![1 => Just(0u16), 2 => 0u16..300], prop_oneof![1u16..40, Just(4096u16)]),
            vec(op, 0..8),
            (0u8..3, any::<bool>(), any::<bool>()),
        )
            .prop_map(|((len, known, seekable, chunk), death, store, (prefetch, batch), mut ops, (handles, threads, background))| {
                if let DStore::Bounded(cap) = store {
                    // within the limits, and always forwards
                    for op in &mut ops {
                        match op {
                            DOp::Read(n) => *n = (*n).min(cap),
                            DOp::Seek(_) => *op = DOp::Pause(20),
                            DOp::Pause(_) => {}
                        }
                    }
                }
                DeathCase { len, known, seekable, chunk, death, store, prefetch, batch, ops, handles, threads, background }
            })
            .boxed()
    },
    run: c11,
    case_limit_s: 120,
    shards: 16,
};

struct Sh {
    case: DeathCase,
    body: Vec<u8>,
    /// from here on calls may fail
    dying: AtomicBool,
    /// the finish hook returned
    done: AtomicBool,
    source_gone: AtomicBool,
    writer_gone: AtomicBool,
    polls: AtomicU32,
    seeks: AtomicU32,
    reports: AtomicU32,
    writes: AtomicU32,
    flushes: AtomicU32,
    silent: AtomicBool,
    stop: Notify,
}
impl Sh {
    fn die(&self) -> ! {
        self.dying.store(true, Ordering::SeqCst);
        std::panic::panic_any("planned")
    }
    fn count(&self, c: &AtomicU32, limit: Option<u16>) {
        let n = c.fetch_add(1, Ordering::SeqCst);
        if limit.is_some_and(|l| n == u32::from(l)) {
            self.die();
        }
    }
}

struct DSource {
    sh: Arc<Sh>,
    at: usize,
    end: usize,
}
impl Drop for DSource {
    fn drop(&mut self) {
        self.sh.source_gone.store(true, Ordering::SeqCst);
    }
}
impl SourceStream for DSource {
    type Params = Arc<Sh>;
    type StreamCreationError = std::convert::Infallible;
    async fn create(sh: Arc<Sh>) -> Result<Self, Self::StreamCreationError> {
        let end = sh.body.len();
        Ok(Self { sh, at: 0, end })
    }
    fn content_length(&self) -> Option<u64> {
        self.sh.case.known.then_some(self.sh.body.len() as u64)
    }
    fn supports_seek(&self) -> bool {
        self.sh.case.seekable
    }
    async fn seek_range(&mut self, start: u64, end: Option<u64>) -> io::Result<()> {
        let limit = if let Death::Seek(n) = self.sh.case.death { Some(u16::from(n)) } else { None };
        self.sh.count(&self.sh.seeks, limit);
        let len = self.sh.body.len();
        self.at = (start as usize).min(len);
        self.end = end.map_or(len, |e| (e as usize).min(len));
        Ok(())
    }
    async fn reconnect(&mut self, at: u64) -> io::Result<()> {
        if matches!(self.sh.case.death, Death::Reconnect(_)) {
            self.sh.die();
        }
        self.at = (at as usize).min(self.sh.body.len());
        self.end = self.sh.body.len();
        Ok(())
    }
    async fn on_finish(&mut self, result: io::Result<()>, _: StreamOutcome) -> io::Result<()> {
        if self.sh.case.death == Death::Finish {
            self.sh.die();
        }
        self.sh.done.store(true, Ordering::SeqCst);
        result
    }
}
impl Stream for DSource {
    type Item = io::Result<Bytes>;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let n = self.sh.polls.fetch_add(1, Ordering::SeqCst);
        match self.sh.case.death {
            Death::Poll(k) if n == u32::from(k) => self.sh.die(),
            Death::Shutdown(k) if n >= u32::from(k) => {
                self.sh.stop.notify_one();
                return Poll::Pending;
            }
            Death::Reconnect(k) | Death::Reconnected(k)
                if n == u32::from(k) || self.sh.silent.load(Ordering::SeqCst) && matches!(self.sh.case.death, Death::Reconnect(_)) =>
            {
                self.sh.silent.store(true, Ordering::SeqCst);
                return Poll::Pending;
            }
            _ => {}
        }
        let end = self.end.min(self.at + usize::from(self.sh.case.chunk).max(1));
        if end <= self.at {
            return Poll::Ready(None);
        }
        let chunk = Bytes::copy_from_slice(&self.sh.body[self.at..end]);
        self.at = end;
        Poll::Ready(Some(Ok(chunk)))
    }
}

struct DProvider<P>(P, Arc<Sh>);
struct DWriter<W>(W, Arc<Sh>);
impl<P: StorageProvider> StorageProvider for DProvider<P> {
    type Reader = P::Reader;
    type Writer = DWriter<P::Writer>;
    fn max_capacity_for(&self, len: Option<u64>) -> Option<usize> {
        self.0.max_capacity_for(len)
    }
    fn into_reader_writer(self, len: Option<u64>) -> io::Result<(Self::Reader, Self::Writer)> {
        let (r, w) = self.0.into_reader_writer(len)?;
        Ok((r, DWriter(w, self.1)))
    }
}
impl<W> Drop for DWriter<W> {
    fn drop(&mut self) {
        self.1.writer_gone.store(true, Ordering::SeqCst);
    }
}
impl<W: Write> Write for DWriter<W> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let limit = if let Death::Write(n) = self.1.case.death { Some(n) } else { None };
        self.1.count(&self.1.writes, limit);
        self.0.write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        let limit = if let Death::Flush(n) = self.1.case.death { Some(n) } else { None };
        self.1.count(&self.1.flushes, limit);
        self.0.flush()
    }
}
impl<W: Seek> Seek for DWriter<W> {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.0.seek(pos)
    }
}

/// Far more than any call takes on a busy machine.
const LIMIT: Duration = Duration::from_secs(25);

fn c11(case: &DeathCase) -> Outcome {
    let sh = Arc::new(Sh {
        case: case.clone(),
        body: content(11, u64::from(case.len)),
        dying: AtomicBool::new(false),
        done: AtomicBool::new(false),
        source_gone: AtomicBool::new(false),
        writer_gone: AtomicBool::new(false),
        polls: AtomicU32::new(0),
        seeks: AtomicU32::new(0),
        reports: AtomicU32::new(0),
        writes: AtomicU32::new(0),
        flushes: AtomicU32::new(0),
        silent: AtomicBool::new(false),
        stop: Notify::new(),
    });
    match case.store {
        DStore::Memory => play(&sh, MemoryStorageProvider),
        DStore::Temp => play(&sh, TempStorageProvider::new()),
        DStore::Bounded(n) => {
            play(&sh, BoundedStorageProvider::new(MemoryStorageProvider, NonZeroUsize::new(usize::from(n).max(1)).unwrap()))
        }
    }
}

fn play<P: StorageProvider + Send + 'static>(sh: &Arc<Sh>, p: P) -> Outcome
where
    P::Reader: Send,
    P::Writer: Send,
{
    let case = &sh.case;
    let (to_reader, from_rt) = mpsc::channel();
    let rt_sh = sh.clone();
    let runtime = std::thread::spawn(move || {
        let sh = rt_sh;
        QUIET.with(|q| q.set(true));
        let rt = if sh.case.threads {
            tokio::runtime::Builder::new_multi_thread().worker_threads(1).on_thread_start(|| QUIET.with(|q| q.set(true))).enable_time().build()
        } else {
            tokio::runtime::Builder::new_current_thread().enable_time().build()
        }
        .expect("runtime");
        let silent = matches!(sh.case.death, Death::Reconnect(_) | Death::Reconnected(_));
        let (report_sh, rec_sh) = (sh.clone(), sh.clone());
        let settings = Settings::default()
            .prefetch_bytes(u64::from(sh.case.prefetch))
            .batch_write_size(NonZeroUsize::new(usize::from(sh.case.batch).max(1)).unwrap())
            .retry_timeout(if silent { Duration::from_millis(3) } else { Duration::from_secs(3600) })
            .on_progress(move |_: &DSource, _, _: &_| {
                let limit = if let Death::Progress(n) = report_sh.case.death { Some(n) } else { None };
                report_sh.count(&report_sh.reports, limit);
            })
            .on_reconnect(move |_: &DSource, _: &_| {
                if matches!(rec_sh.case.death, Death::Reconnected(_)) {
                    rec_sh.die();
                }
            });
        let r = rt.block_on(StreamDownload::new::<DSource>(sh.clone(), DProvider(p, sh.clone()), settings)).ok();
        let _ = to_reader.send(r);
        if sh.case.death != Death::Shutdown(0) {
            rt.block_on(sh.stop.notified());
        }
        if matches!(sh.case.death, Death::Shutdown(_)) {
            sh.dying.store(true, Ordering::SeqCst);
        }
        if sh.case.background {
            rt.shutdown_background();
        } else {
            drop(rt);
        }
    });
    let (done_tx, done_rx) = mpsc::channel();
    let reader_sh = sh.clone();
    std::thread::spawn(move || {
        QUIET.with(|q| q.set(true));
        let Ok(Some(r)) = from_rt.recv() else { return };
        let mut r = r;
        let res = reader(&reader_sh, &mut r);
        let _ = done_tx.send(res);
        // the runtime may still be in use by the download
        drop(r);
    });
    let mut out = Outcome::default();
    match done_rx.recv_timeout(LIMIT) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => out.problem(e),
        Err(mpsc::RecvTimeoutError::Timeout) => out.problem("a call doesn't return"),
        Err(mpsc::RecvTimeoutError::Disconnected) => out.problem("the reader panicked"),
    }
    // wherever the runtime is waiting
    sh.stop.notify_one();
    if out.fail.is_none() {
        let _ = runtime.join();
    }
    let done = sh.done.load(Ordering::SeqCst);
    out.nontrivial = !done;
    out.class(match case.death {
        _ if done => "survived",
        Death::No => "none",
        Death::Poll(_) | Death::Seek(_) | Death::Reconnect(_) => "the source panicked",
        Death::Progress(_) | Death::Reconnected(_) => "a callback panicked",
        Death::Finish => "the finish hook panicked",
        Death::Write(_) | Death::Flush(_) => "the storage panicked",
        Death::Shutdown(0) => "the task never ran",
        Death::Shutdown(_) => "the runtime was shut down",
    });
    out
}

fn wait_until(limit: Duration, f: impl Fn() -> bool) -> bool {
    let start = Instant::now();
    while !f() {
        if start.elapsed() > limit {
            return false;
        }
        std::thread::sleep(Duration::from_micros(50));
    }
    true
}

fn reader<P: StorageProvider>(sh: &Sh, r: &mut StreamDownload<P>) -> Result<(), String> {
    let case = &sh.case;
    let len = sh.body.len();
    let bounded = matches!(case.store, DStore::Bounded(_));
    let early = (0..case.handles).map(|_| r.handle()).collect::<Vec<_>>();
    let mut pos = 0;
    let mut end = false;
    let read = |r: &mut StreamDownload<P>, pos: &mut usize, n: usize, end: &mut bool, what: &str| {
        let mut buf = vec![0u8; n];
        match r.read(&mut buf) {
            Ok(k) if *pos + k > len || buf[..k] != sh.body[*pos..*pos + k] => Err(format!("{what}: {k} wrong bytes at {pos}")),
            Ok(0) if n > 0 && *pos < len => Err(format!("{what}: end of file at {pos} of {len}")),
            Ok(k) => {
                *pos += k;
                *end |= k == 0 && n > 0;
                Ok(true)
            }
            Err(e) if sh.dying.load(Ordering::SeqCst) || (!case.known && e.kind() == io::ErrorKind::UnexpectedEof) => {
                let _ = e;
                Ok(false)
            }
            Err(e) => Err(format!("{what}: reading at {pos} of {len} failed: {e}")),
        }
    };
    for (i, op) in case.ops.iter().enumerate() {
        match op {
            DOp::Pause(us) => std::thread::sleep(Duration::from_micros(u64::from(*us))),
            DOp::Read(n) => {
                read(r, &mut pos, usize::from(*n), &mut end, &format!("op {i}"))?;
            }
            DOp::Seek(f) => {
                let to = usize::from(*f) * (len + 1) >> 16;
                match r.seek(SeekFrom::Start(to as u64)) {
                    Ok(p) if p != to as u64 => return Err(format!("op {i}: seeking to {to} leads to {p}")),
                    Ok(_) => pos = to,
                    Err(_) if sh.dying.load(Ordering::SeqCst) => {}
                    Err(e) => return Err(format!("op {i}: seeking to {to} of {len} failed: {e}")),
                }
            }
        }
    }
    // up to the end, or to the first error
    let n = if let DStore::Bounded(cap) = case.store { usize::from(cap).clamp(1, 64) } else { 64 };
    while !end && read(r, &mut pos, n, &mut end, "rest")? {}
    let handles = early.into_iter().chain([r.handle()]);
    // Nobody but the runtime's thread decides that a runtime goes away
    let mut waited = None;
    for h in handles {
        let rt = waited.get_or_insert_with(|| tokio::runtime::Builder::new_current_thread().enable_time().build().expect("runtime"));
        if rt.block_on(async { tokio::time::timeout(LIMIT / 2, h.wait_for_completion()).await }).is_err() {
            return Err("the handle doesn't resolve".into());
        }
    }
    if !wait_until(LIMIT / 2, || sh.source_gone.load(Ordering::SeqCst) && sh.writer_gone.load(Ordering::SeqCst)) {
        return Err("source or storage are kept".into());
    }
    if sh.done.load(Ordering::SeqCst) {
        if !bounded && (case.known || !case.ops.iter().any(|o| matches!(o, DOp::Seek(_)))) {
            let mut got = vec![];
            let res = r.seek(SeekFrom::Start(0)).and_then(|_| r.read_to_end(&mut got));
            if res.is_err() || got != sh.body {
                return Err(format!("after the download {} bytes of {len} are read: {res:?}", got.len()));
            }
        }
        return Ok(());
    }
    if end {
        return Err("the end of the file was reported although the download died".into());
    }
    let mut b = [0u8; 1];
    for _ in 0..2 {
        if let Ok(n) = r.read(&mut b) {
            return Err(format!("a read of {n} bytes succeeds although the download died"));
        }
        if let Ok(p) = r.seek(SeekFrom::Start(0)) {
            return Err(format!("a seek to {p} succeeds although the download died"));
        }
    }
    Ok(())
}
