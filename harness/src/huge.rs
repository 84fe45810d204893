//! Contents of several gigabytes: the bytes around the start and around a far position are real, the
//! rest are zeros that are never copied.
use std::future::Future;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};
use std::num::NonZeroUsize;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::task::{Context, Poll};
use std::time::Duration;

use bytes::Bytes;
use futures_util::Stream;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use stream_download::source::{SourceStream, StreamOutcome};
use stream_download::storage::StorageProvider;
use stream_download::{Settings, StreamDownload, StreamPhase};
use tokio::sync::Notify;

use crate::netchecks::workers;
use crate::runner::Outcome;
use crate::sim::SimCase;

/// A simulated case, or one with a huge content.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mixed {
    Sim(Box<SimCase>),
    Huge(HugeCase),
}

pub fn mixed(sim: BoxedStrategy<SimCase>, share: u32) -> BoxedStrategy<Mixed> {
    prop_oneof![
        1000 - share => sim.prop_map(|c| Mixed::Sim(Box::new(c))),
        share => case().prop_map(Mixed::Huge),
    ]
    .boxed()
}

const ZONE: u64 = 2048;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum HOp {
    Read(u16),
    /// zone, offset in it
    Seek(bool, u16),
    SeekBy(bool, u16),
    SeekEnd(bool, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct HugeCase {
    /// the far zone is around this position
    far: u64,
    tail: u16,
    known: bool,
    seekable: bool,
    /// the source waits before the zeros until it has to jump or the reader is done
    hold: bool,
    piece: u16,
    hole_piece: u64,
    batch: u64,
    max_write: u64,
    prefetch: u64,
    ops: Vec<HOp>,
    ops_after: Vec<HOp>,
}

pub fn case() -> BoxedStrategy<HugeCase> {
    const G: u64 = 1 << 30;
    let op = || {
        prop_oneof![
            3 => (0u16..3000).prop_map(HOp::Read),
            2 => (any::<bool>(), 0u16..4096).prop_map(|(z, o)| HOp::Seek(z, o)),
            1 => (any::<bool>(), 0u16..4096).prop_map(|(z, o)| HOp::SeekBy(z, o)),
            1 => (any::<bool>(), 0u16..4096).prop_map(|(z, o)| HOp::SeekEnd(z, o)),
        ]
    };
    let size = || {
        prop_oneof![
            Just(4 * G),
            Just(4 * G + 7),
            Just(4 * G - 1),
            Just(2 * G),
            Just(2 * G - 1),
            Just(5 * G),
            Just(G),
            Just(G + 4099),
        ]
    };
    (
        (prop_oneof![Just(4 * G), Just(2 * G), Just(8 * G), Just(4 * G + 1000)], 0u16..2000, any::<bool>(), prop::bool::weighted(0.7), prop::bool::weighted(0.6)),
        1u16..1500,
        size(),
        prop_oneof![1 => Just(usize::MAX as u64), 2 => size()],
        prop_oneof![1 => Just(usize::MAX as u64), 2 => size()],
        prop_oneof![2 => Just(0u64), 2 => 0u64..1000, 1 => size()],
        vec(op(), 0..8),
        vec(op(), 0..5),
    )
        .prop_map(|((far, tail, known, seekable, hold), piece, hole_piece, batch, max_write, prefetch, ops, ops_after)| {
            let hold = hold && seekable;
            HugeCase {
                far,
                tail,
                known,
                seekable,
                hold,
                piece,
                hole_piece,
                batch,
                max_write,
                // a source that waits has to deliver the prefetched amount before
                prefetch: if hold { prefetch % 1000 } else { prefetch },
                ops,
                ops_after,
            }
        })
        .boxed()
}

impl HugeCase {
    fn len(&self) -> u64 {
        self.far + u64::from(self.tail)
    }
    /// The real part `p` is in, or the zeros.
    fn zone(&self, p: u64) -> Result<(u64, u64), (u64, u64)> {
        if p < 2 * ZONE {
            Ok((0, 2 * ZONE))
        } else if p < self.far - ZONE {
            Err((2 * ZONE, self.far - ZONE))
        } else {
            Ok((self.far - ZONE, self.len().max(self.far)))
        }
    }
    fn byte(&self, p: u64) -> u8 {
        if self.zone(p).is_ok() { crate::trace::content(3, p) } else { 0 }
    }
    fn pos(&self, far: bool, off: u16) -> u64 {
        if far {
            (self.far - ZONE + u64::from(off)).min(self.len())
        } else {
            u64::from(off) % (2 * ZONE)
        }
    }
}

fn zeros(n: u64) -> Bytes {
    static Z: OnceLock<Bytes> = OnceLock::new();
    // never touched, so this takes no memory
    Z.get_or_init(|| Bytes::from(vec![0u8; 5 << 30])).slice(..n.min(5 << 30) as usize)
}

#[derive(Default)]
struct State {
    near: Vec<Option<u8>>,
    far: Vec<Option<u8>>,
    /// sorted, disjoint and not adjacent
    stored: Vec<(u64, u64)>,
    writer: u64,
    last: (u64, u64),
    written: u64,
    seeks: u32,
    reported: u64,
    finished: Option<bool>,
    complete: u32,
    problem: Option<(&'static str, String)>,
}
impl State {
    fn problem(&mut self, id: &'static str, msg: String) {
        self.problem.get_or_insert((id, msg));
    }
    fn add(&mut self, a: u64, b: u64) {
        if a == b {
            return;
        }
        self.stored.push((a, b));
        self.stored.sort_unstable();
        let mut v: Vec<(u64, u64)> = vec![];
        for &(a, b) in &self.stored {
            match v.last_mut() {
                Some(l) if l.1 >= a => l.1 = l.1.max(b),
                _ => v.push((a, b)),
            }
        }
        self.stored = v;
    }
    fn has(&self, p: u64) -> bool {
        self.stored.iter().any(|&(a, b)| a <= p && p < b)
    }
}

struct Env {
    case: HugeCase,
    st: Mutex<State>,
    released: AtomicBool,
    wake: Notify,
}
type Sh = Arc<Env>;

// ---- storage

struct HProvider(Sh);
struct HR(Sh, u64);
struct HW(Sh, u64);
impl StorageProvider for HProvider {
    type Reader = HR;
    type Writer = HW;
    fn into_reader_writer(self, len: Option<u64>) -> io::Result<(HR, HW)> {
        let want = self.0.case.known.then(|| self.0.case.len());
        if len != want {
            self.0.st.lock().unwrap().problem("C25", format!("storage created with {len:?} for {want:?}"));
        }
        Ok((HR(self.0.clone(), 0), HW(self.0, 0)))
    }
}
fn seek(pos: &mut u64, to: SeekFrom) -> io::Result<u64> {
    *pos = match to {
        SeekFrom::Start(p) => p,
        SeekFrom::Current(o) => pos.checked_add_signed(o).ok_or(ErrorKind::InvalidInput)?,
        SeekFrom::End(_) => return Err(ErrorKind::Unsupported.into()),
    };
    Ok(*pos)
}
impl Seek for HR {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        seek(&mut self.1, to)
    }
}
impl Seek for HW {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let p = seek(&mut self.1, to)?;
        self.0.st.lock().unwrap().writer = p;
        Ok(p)
    }
}
impl Read for HR {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let c = &self.0.case;
        let st = self.0.st.lock().unwrap();
        for (i, b) in buf.iter_mut().enumerate() {
            let p = self.1 + i as u64;
            *b = if p < 2 * ZONE {
                st.near.get(p as usize).copied().flatten().unwrap_or(0xEE)
            } else if p < c.far - ZONE {
                if st.has(p) { 0 } else { 0xEE }
            } else {
                st.far.get((p - (c.far - ZONE)) as usize).copied().flatten().unwrap_or(0xEE)
            };
        }
        self.1 += buf.len() as u64;
        Ok(buf.len())
    }
}
impl Write for HW {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let c = &self.0.case;
        let mut st = self.0.st.lock().unwrap();
        let n = (buf.len() as u64).min(c.max_write);
        let end = self.1 + n;
        if end > c.len() {
            st.problem("C01", format!("{}..{end} written of {} bytes", self.1, c.len()));
            return Err(ErrorKind::InvalidInput.into());
        }
        // only the real parts are copied
        let mut p = self.1;
        while p < end {
            match c.zone(p) {
                Ok((a, b)) => {
                    let to = if a == 0 { &mut st.near } else { &mut st.far };
                    if to.is_empty() {
                        to.resize((b - a) as usize, None);
                    }
                    let e = end.min(b);
                    for q in p..e {
                        to[(q - a) as usize] = Some(buf[(q - self.1) as usize]);
                    }
                    p = e;
                }
                Err((_, b)) => {
                    let e = end.min(b);
                    if buf[(p - self.1) as usize] != 0 || buf[(e - 1 - self.1) as usize] != 0 {
                        st.problem("C01", format!("wrong bytes written at {p}..{e}"));
                    }
                    p = e;
                }
            }
        }
        st.add(self.1, end);
        st.written += n;
        st.last = (self.1, end);
        st.writer = end;
        self.1 = end;
        Ok(n as usize)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ---- source

struct HSource {
    sh: Sh,
    pos: u64,
    end: u64,
    wait: Option<Pin<Box<dyn Future<Output = ()> + Send + Sync>>>,
}
impl SourceStream for HSource {
    type Params = Sh;
    type StreamCreationError = std::convert::Infallible;
    async fn create(sh: Sh) -> Result<Self, Self::StreamCreationError> {
        let end = sh.case.len();
        Ok(Self { sh, pos: 0, end, wait: None })
    }
    fn content_length(&self) -> Option<u64> {
        self.sh.case.known.then(|| self.sh.case.len())
    }
    fn supports_seek(&self) -> bool {
        self.sh.case.seekable
    }
    async fn seek_range(&mut self, start: u64, end: Option<u64>) -> io::Result<()> {
        let c = &self.sh.case;
        let mut st = self.sh.st.lock().unwrap();
        st.seeks += 1;
        if !c.seekable {
            st.problem("C09", "a source that can't seek was asked to".into());
        }
        if start > c.len() || end.is_some_and(|e| e > c.len() || e <= start && start < c.len()) {
            st.problem("C09", format!("range {start}..{end:?} of {} bytes requested", c.len()));
        }
        if c.known && st.has(start) {
            st.problem("C09", format!("{start} is stored and was requested"));
        }
        let next = st.stored.iter().map(|s| s.0).find(|a| *a > start);
        let want = if c.known { next.or(Some(c.len())) } else { next };
        if start < c.len() && (c.known || end.is_some()) && end != want {
            st.problem("C09", format!("range {start}..{end:?} requested, the next stored byte or the end is at {want:?}"));
        }
        self.pos = start.min(c.len());
        self.end = end.unwrap_or(c.len()).min(c.len());
        Ok(())
    }
    async fn reconnect(&mut self, _: u64) -> io::Result<()> {
        self.sh.st.lock().unwrap().problem("C13", "reconnected".into());
        Ok(())
    }
    async fn on_finish(&mut self, r: io::Result<()>, _: StreamOutcome) -> io::Result<()> {
        self.sh.st.lock().unwrap().finished = Some(r.is_ok());
        r
    }
}
impl Stream for HSource {
    type Item = io::Result<Bytes>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let s = &mut *self;
        if s.pos >= s.end {
            return Poll::Ready(None);
        }
        let c = &s.sh.case;
        let chunk = match c.zone(s.pos) {
            Ok((_, b)) => {
                let n = (b.min(s.end) - s.pos).min(u64::from(c.piece).max(1));
                (s.pos..s.pos + n).map(|p| c.byte(p)).collect()
            }
            Err((_, b)) => {
                // a prefetch phase that begins in the first part has to be able to end
                let wait_at = 2 * ZONE + 4096;
                if c.hold && s.pos < wait_at {
                    let n = (wait_at - s.pos).min(u64::from(c.piece).max(1)).min(s.end - s.pos);
                    s.pos += n;
                    return Poll::Ready(Some(Ok(zeros(n))));
                }
                if c.hold && !s.sh.released.load(Ordering::SeqCst) {
                    let sh = s.sh.clone();
                    let w = s.wait.get_or_insert_with(|| {
                        Box::pin(async move {
                            // whoever made the source jump may need what comes after the zeros
                            let jumped = sh.st.lock().unwrap().seeks > 0;
                            while !sh.released.load(Ordering::SeqCst) {
                                if jumped {
                                    tokio::time::sleep(Duration::from_millis(3)).await;
                                    break;
                                }
                                let _ = tokio::time::timeout(Duration::from_millis(5), sh.wake.notified()).await;
                            }
                        })
                    });
                    if w.as_mut().poll(cx).is_pending() {
                        return Poll::Pending;
                    }
                }
                zeros((b.min(s.end) - s.pos).min(c.hole_piece))
            }
        };
        s.wait = None;
        s.pos += chunk.len() as u64;
        Poll::Ready(Some(Ok(chunk)))
    }
}

// ---- the check

fn play(case: &HugeCase, sh: &Sh, first: bool, r: &mut StreamDownload<HProvider>, ops: &[HOp], pos: &mut u64) -> Result<(), (&'static str, String)> {
    let len = case.len();
    for (i, op) in ops.iter().enumerate() {
        let (to, want) = match *op {
            HOp::Read(n) => {
                // the zeros between the real parts may not be there yet
                let (Ok((_, b)) | Err((_, b))) = case.zone(*pos);
                let n = u64::from(n).min(b.saturating_sub(*pos)) as usize;
                if case.zone(*pos).is_err() && *pos < len {
                    continue;
                }
                let mut buf = vec![0u8; n];
                match r.read(&mut buf) {
                    Ok(0) if n > 0 && *pos < len => return Err(("C01", format!("op {i}: end of file at {pos} of {len}"))),
                    Ok(k) => {
                        if k > n || *pos + k as u64 > len || (0..k).any(|j| buf[j] != case.byte(*pos + j as u64)) {
                            return Err(("C01", format!("op {i}: {k} wrong bytes at {pos}")));
                        }
                        *pos += k as u64;
                        if first && i == 0 && k > 0 {
                            let want = case.prefetch.min(len);
                            let there = sh.st.lock().unwrap().stored.first().map_or(0, |s| s.1);
                            if there < want {
                                return Err(("C04", format!("a read returned with {there} of {want} bytes to prefetch")));
                            }
                        }
                    }
                    // skipped, and out of reach without a known length
                    Err(e) if e.kind() == ErrorKind::UnexpectedEof && !case.known => {}
                    Err(e) => return Err(("C01", format!("op {i}: reading {n} at {pos} of {len}: {e}"))),
                }
                continue;
            }
            HOp::Seek(z, o) => (SeekFrom::Start(case.pos(z, o)), case.pos(z, o)),
            HOp::SeekBy(z, o) => (SeekFrom::Current(case.pos(z, o) as i64 - *pos as i64), case.pos(z, o)),
            HOp::SeekEnd(..) if !case.known => {
                if r.seek(SeekFrom::End(0)).is_ok() {
                    return Err(("C02", format!("op {i}: a seek from an unknown end succeeded")));
                }
                continue;
            }
            HOp::SeekEnd(z, o) => (SeekFrom::End(-((len - case.pos(z, o)) as i64)), case.pos(z, o)),
        };
        match r.seek(to) {
            Ok(p) if p == want => *pos = p,
            Err(e) if e.kind() == ErrorKind::UnexpectedEof && !case.known => {}
            res => return Err(("C02", format!("op {i}: {to:?} gave {res:?} instead of {want}"))),
        }
        match r.stream_position() {
            Ok(p) if p == *pos => {}
            res => return Err(("C02", format!("op {i}: at {res:?} instead of {pos}"))),
        }
    }
    Ok(())
}

/// Judges everything; only problems of the given property are reported, as every other one is by its
/// own check.
pub fn run(id: &'static str, case: &HugeCase) -> Outcome {
    let mut out = Outcome::default();
    out.nontrivial = true;
    out.class("huge content");
    if let Err((p, msg)) = judge(case)
        && (p == id || p == "C01" && id == "C02" || matches!(p, "C25" | "C13") && id == "C01")
    {
        out.problem(format!("[content of {} bytes] {msg}", case.len()));
    }
    out
}

fn judge(case: &HugeCase) -> Result<(), (&'static str, String)> {
    let sh: Sh = Arc::new(Env {
        case: case.clone(),
        st: Mutex::default(),
        released: AtomicBool::new(false),
        wake: Notify::new(),
    });
    let _rt = workers().enter();
    let size = |n: u64| NonZeroUsize::new(usize::try_from(n).unwrap_or(usize::MAX)).unwrap();
    let (sh2, prefetch, total) = (sh.clone(), case.prefetch, case.len());
    let settings = Settings::default()
        .prefetch_bytes(case.prefetch)
        .batch_write_size(size(case.batch))
        .retry_timeout(Duration::from_secs(3600))
        .on_progress(move |_s, p, _| {
            let mut st = sh2.st.lock().unwrap();
            let (writer, last) = (st.writer, st.last);
            let empty = p.current_chunk.start == p.current_chunk.end;
            if p.current_position != writer || !empty && !(p.current_chunk.start < writer && writer <= p.current_chunk.end) || p.current_chunk.start > p.current_chunk.end {
                st.problem("C12", format!("position {} and chunk {:?} reported at {writer}", p.current_position, p.current_chunk));
            }
            if p.current_chunk.end > total {
                st.problem("C12", format!("chunk {:?} of {total} bytes", p.current_chunk));
            }
            let stored = (p.current_chunk.start == p.current_chunk.end)
                || st.stored.iter().any(|s| s.0 <= p.current_chunk.start && p.current_chunk.end <= s.1);
            if !stored {
                st.problem("C12", format!("chunk {:?} isn't stored, the last write was {last:?}", p.current_chunk));
            }
            match p.phase {
                StreamPhase::Prefetching { target, chunk_size, .. } => {
                    if target != prefetch {
                        st.problem("C12", format!("target {target} instead of {prefetch}"));
                    }
                    st.reported += chunk_size as u64;
                }
                StreamPhase::Downloading { chunk_size, .. } => st.reported += chunk_size as u64,
                StreamPhase::Complete => st.complete += 1,
                _ => {}
            }
        });
    let r = workers().block_on(StreamDownload::new::<HSource>(sh.clone(), HProvider(sh.clone()), settings));
    let mut r = r.map_err(|e| ("C25", format!("creation failed: {e}")))?;
    let mut pos = 0;
    let res = play(case, &sh, true, &mut r, &case.ops, &mut pos);
    sh.released.store(true, Ordering::SeqCst);
    sh.wake.notify_waiters();
    workers().block_on(r.handle().wait_for_completion());
    let early = sh.st.lock().unwrap().problem.take();
    early.map_or(Ok(()), Err)?;
    res?;
    let seeks = {
        let st = sh.st.lock().unwrap();
        if st.finished != Some(true) {
            return Err(("C10", format!("finished with {:?}", st.finished)));
        }
        let gapless = st.stored == [(0, case.len())];
        if !gapless && case.known {
            return Err(("C10", format!("completed with {:?} of {} bytes", st.stored, case.len())));
        }
        if gapless && !case.seekable && st.written != case.len() {
            return Err(("C10", format!("{} of {} bytes written", st.written, case.len())));
        }
        if st.reported != st.written {
            return Err(("C12", format!("chunks of {} bytes reported, {} written", st.reported, st.written)));
        }
        if st.complete > 1 || (gapless && st.complete == 0) {
            return Err(("C12", format!("completion reported {} times", st.complete)));
        }
        st.seeks
    };
    play(case, &sh, false, &mut r, &case.ops_after, &mut pos)?;
    let mut st = sh.st.lock().unwrap();
    if st.seeks != seeks {
        return Err(("C10", "the source was asked to seek after the end".into()));
    }
    st.problem.take().map_or(Ok(()), Err)
}
