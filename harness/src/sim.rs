//! One simulated case: a reader program against a download over a scripted source.
use std::cell::RefCell;
use std::io::{Read, Seek, SeekFrom};
use std::num::NonZeroUsize;
use std::panic::AssertUnwindSafe;
use std::sync::mpsc;
use std::sync::{Arc, Mutex, Once};
use std::time::Duration;

use serde::{Deserialize, Serialize};
use stream_download::{Settings, StreamDownload};
use tokio::task::yield_now;
use tokio::time::Instant;

use crate::sched::{Actor, Hook, RState, Sched, SchedSpec, SimAbort, set_me};
use crate::source::{Beh, Item, MockSource, SourceSpec};
use crate::store::{DynProvider, Shadow, StoreSpec};
use crate::trace::{CallKind, Ev, Log, OpRes, Rec, Shared};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Read(u32),
    /// Reads with this buffer size until end of file or error.
    ReadAll(u32),
    /// Absolute target, modulo (len + 6).
    Seek(u32),
    /// Same target expressed relative to the current position.
    SeekCur(u32),
    /// Same target expressed relative to the end.
    SeekEnd(u32),
    RawStart(u64),
    RawCur(i64),
    RawEnd(i64),
    Pos,
    Sleep(u16),
    Cancel,
    /// Triggers the stream's cancellation token (same effect as Cancel, other entry point).
    CancelToken,
    /// Takes a completion handle and waits for it on the runtime.
    Handle,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SimCase {
    pub src: SourceSpec,
    pub store: StoreSpec,
    pub salt: u8,
    pub prefetch: u32,
    pub batch: u16,
    pub retry_ms: u16,
    pub cancel_on_drop: bool,
    pub ops: Vec<Op>,
    pub sched: SchedSpec,
    /// Virtual times at which the token is cancelled from the runtime.
    pub cancel_at: Vec<u16>,
    /// Virtual times at which handles taken at the start begin to wait.
    pub handles_at: Vec<u16>,
    /// The n-th call of the progress callback (or, from 100 on, of the reconnect callback) cancels.
    #[serde(default)]
    pub cancel_cb: Option<u8>,
}

impl SimCase {
    pub fn horizon(&self) -> u64 {
        let stalls: u64 = self
            .src
            .script
            .iter()
            .map(|i| if let Item::Stall(ms) = i { u64::from(*ms) } else { 0 })
            .sum();
        let delays: u64 = self
            .src
            .seeks
            .iter()
            .chain(&self.src.reconnects)
            .map(|b| if let Beh::Delay(ms) = b { u64::from(*ms) } else { 0 })
            .sum();
        let sleeps: u64 = self
            .ops
            .iter()
            .map(|op| if let Op::Sleep(ms) = op { u64::from(*ms) } else { 0 })
            .sum();
        let interruptions =
            3 * (self.src.script.len() + self.src.seeks.len() + self.src.reconnects.len()) as u64;
        1000 + stalls + delays + sleeps + (20 + interruptions) * u64::from(self.retry_ms) + u64::from(self.src.finish_delay)
    }
    /// The largest value stands for the largest possible target.
    pub fn prefetch_target(&self) -> u64 {
        if self.prefetch == u32::MAX { u64::MAX } else { u64::from(self.prefetch) }
    }
    pub fn len(&self) -> u64 {
        u64::from(self.src.len)
    }
    pub fn is_empty(&self) -> bool {
        self.src.len == 0
    }
}

pub struct RunResult {
    pub log: Vec<Rec>,
    pub shadow: Vec<Option<u8>>,
    pub requested_len: Vec<Option<u64>>,
    /// The reader's program ended (not stuck / panicked).
    pub r_done: bool,
    /// Source and writer released when the simulation ended.
    pub released: bool,
    pub points: u64,
    pub content_length: Option<Option<u64>>,
}

thread_local! {
    static CUR: RefCell<Option<Arc<Shared>>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn last_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

pub fn install_panic_hook() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| (*s).to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = info
                .location()
                .map(|l| {
                    let f = l.file();
                    let f = f.rsplit("/src/").next().unwrap_or(f);
                    format!("{f}:{}", l.line())
                })
                .unwrap_or_default();
            let text = format!("{msg} at {loc}");
            let sim = CUR.try_with(|c| c.borrow().clone()).ok().flatten();
            if let Some(sh) = sim {
                let who = crate::sched::me().unwrap_or(Actor::D);
                sh.ev(Ev::Panic { who, msg: text });
            } else if QUIET.with(|q| q.get()) {
                LAST_PANIC.with(|p| *p.borrow_mut() = Some(text));
            } else {
                prev(info);
            }
        }));
    });
}

thread_local! {
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Runs `f`, turning a panic into Err(message) without printing it.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_panic_hook();
    let old = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| last_panic().unwrap_or_else(|| "panic".into()))
}

struct PointSubscriber(Arc<Sched>);
impl tracing::Subscriber for PointSubscriber {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        m.target().starts_with("stream_download")
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, _: &tracing::Event<'_>) {
        self.0.at_point();
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

struct ActorGuard;
impl ActorGuard {
    fn new(who: Actor, sh: &Arc<Shared>) -> Self {
        set_me(Some(who));
        parking_lot::simhook::install(Some(Arc::new(Hook(sh.sched.clone()))));
        CUR.with(|c| *c.borrow_mut() = Some(sh.clone()));
        Self
    }
}
impl Drop for ActorGuard {
    fn drop(&mut self) {
        parking_lot::simhook::install(None);
        set_me(None);
        CUR.with(|c| *c.borrow_mut() = None);
    }
}

type Sd = StreamDownload<DynProvider>;

static DIR: std::sync::OnceLock<tempfile::TempDir> = std::sync::OnceLock::new();

/// Removes the scratch directory of this process (statics are not dropped on exit).
pub fn cleanup_scratch() {
    if let Some(d) = DIR.get() {
        let _ = std::fs::remove_dir_all(d.path());
    }
}

pub fn scratch() -> &'static std::path::Path {
    DIR.get_or_init(|| {
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        tempfile::Builder::new()
            .prefix("sdverif")
            .tempdir_in(base)
            .expect("scratch dir")
    })
    .path()
}

pub fn run_case(case: &SimCase) -> RunResult {
    install_panic_hook();
    let sched = Sched::new(case.sched.clone(), 400_000);
    let sh = Arc::new(Shared {
        sched: sched.clone(),
        log: Log::default(),
        salt: case.salt,
        len: case.len(),
    });
    let shadow = Arc::new(Mutex::new(Shadow::default()));
    let _guard = ActorGuard::new(Actor::D, &sh);
    let dispatch = tracing::Dispatch::new(PointSubscriber(sched.clone()));
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        // tokio::select! picks its branch order from this generator
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&[case.salt, case.batch as u8]))
        .build()
        .expect("runtime");
    let mut r_done = false;
    let mut content_length = None;
    std::thread::scope(|s| {
        let (tx, rx) = mpsc::channel::<(Sd, tokio::runtime::Handle, Instant)>();
        let sh2 = sh.clone();
        let dispatch2 = dispatch.clone();
        let jh = s.spawn(move || {
            let _guard = ActorGuard::new(Actor::R, &sh2);
            tracing::dispatcher::with_default(&dispatch2, || {
                let Ok((sd, rt, start)) = rx.recv() else { return false };
                sh2.sched.r_start();
                let done = reader(case, &sh2, sd, &rt, start);
                sh2.sched.r_finished();
                done
            })
        });
        tracing::dispatcher::with_default(&dispatch, || {
            content_length = rt.block_on(drive(case, &sh, &shadow, tx));
        });
        r_done = jh.join().unwrap_or(false);
    });
    let log = sh.log.snapshot();
    if std::env::var_os("SIM_LOG").is_some() {
        for r in &log {
            println!("{:>6} {:?}", r.t, r.ev);
        }
    }
    sched.set_free();
    tracing::dispatcher::with_default(&dispatch, || drop(rt));
    let released = log.iter().any(|r| r.ev == Ev::SourceDropped)
        && log.iter().any(|r| r.ev == Ev::WriterDropped);
    let sd = shadow.lock().unwrap();
    RunResult {
        log,
        shadow: sd.data.clone(),
        requested_len: sd.requested_len.clone(),
        r_done,
        released,
        points: sched.points(),
        content_length,
    }
}

async fn settle(sched: &Sched) {
    let mut quiet = 0;
    while quiet < 3 {
        let a = sched.activity();
        yield_now().await;
        if sched.activity() == a {
            quiet += 1;
        } else {
            quiet = 0;
        }
        if sched.aborted() {
            return;
        }
    }
}

async fn drive(
    case: &SimCase,
    sh: &Arc<Shared>,
    shadow: &Arc<Mutex<Shadow>>,
    tx: mpsc::Sender<(Sd, tokio::runtime::Handle, Instant)>,
) -> Option<Option<u64>> {
    let sched = &sh.sched;
    let start = Instant::now();
    let mut settings = Settings::<MockSource>::default()
        .prefetch_bytes(case.prefetch_target())
        .batch_write_size(NonZeroUsize::new(usize::from(case.batch).max(1)).unwrap())
        .retry_timeout(Duration::from_millis(u64::from(case.retry_ms)))
        .cancel_on_drop(case.cancel_on_drop);
    {
        let sh = sh.clone();
        let at = case.cancel_cb;
        let mut n = 0u32;
        settings = settings.on_progress(move |_s, st, t| {
            sh.ev(Ev::Progress {
                pos: st.current_position,
                chunk: (st.current_chunk.start, st.current_chunk.end),
                phase: st.phase,
            });
            if at.is_some_and(|at| u32::from(at) == n) {
                sh.ev(Ev::CancelRequested);
                t.cancel();
            }
            n += 1;
        });
    }
    {
        let sh = sh.clone();
        let at = case.cancel_cb;
        let mut n = 100u32;
        settings = settings.on_reconnect(move |_s, t| {
            sh.ev(Ev::ReconnectCb);
            if at.is_some_and(|at| u32::from(at) == n) {
                sh.ev(Ev::CancelRequested);
                t.cancel();
            }
            n += 1;
        });
    }
    let provider = DynProvider {
        sh: sh.clone(),
        spec: case.store.clone(),
        dir: scratch().to_path_buf(),
        shadow: shadow.clone(),
    };
    let sd = match StreamDownload::new::<MockSource>(
        (sh.clone(), case.src.clone(), start),
        provider,
        settings,
    )
    .await
    {
        Ok(sd) => sd,
        Err(_) => return None,
    };
    let content_length = sd.content_length();
    for (i, at) in case.handles_at.iter().enumerate() {
        let h = sd.handle();
        let (at, sh) = (*at, sh.clone());
        tokio::spawn(async move {
            tokio::time::sleep(Duration::from_millis(u64::from(at))).await;
            sh.tick(start);
            sh.ev(Ev::HandleWait { i });
            h.wait_for_completion().await;
            sh.tick(start);
            sh.ev(Ev::Handle { i });
        });
    }
    for at in &case.cancel_at {
        let token = sd.cancellation_token();
        let (at, sh) = (*at, sh.clone());
        tokio::spawn(async move {
            tokio::time::sleep(Duration::from_millis(u64::from(at))).await;
            sh.tick(start);
            sh.ev(Ev::CancelRequested);
            token.cancel();
        });
    }
    let _ = tx.send((sd, tokio::runtime::Handle::current(), start));
    sched.make_ready();
    if !sched.spec().d_first {
        sched.run_r();
    }
    let horizon = case.horizon();
    let mut deadline = None;
    let mut end_at: Option<Instant> = None;
    loop {
        settle(sched).await;
        sh.tick(start);
        if sched.livelocked() {
            sh.ev(Ev::Livelock);
            sched.abort_r();
            break;
        }
        match sched.r_state() {
            RState::Ready => {
                deadline = None;
                sched.run_r();
            }
            RState::Idle => unreachable!("reader handed over"),
            RState::Cond(limit) => {
                let dl = *deadline.get_or_insert_with(|| {
                    Instant::now() + Duration::from_millis(horizon)
                });
                let wake = limit.map(|ms| start + Duration::from_millis(ms));
                let until = wake.map_or(dl, |w| w.min(dl));
                tokio::select! {
                    biased;
                    () = sched.main_wake.notified() => {}
                    () = tokio::time::sleep_until(until) => {
                        settle(sched).await;
                        sh.tick(start);
                        if matches!(sched.r_state(), RState::Cond(_)) {
                            if wake.is_some_and(|w| w <= until) {
                                sched.make_ready();
                            } else {
                                let op = sh.log.snapshot().iter().rev().find_map(|r| match r.ev {
                                    Ev::OpStart { i, .. } => Some(i),
                                    _ => None,
                                }).unwrap_or(0);
                                sh.ev(Ev::Hang { op });
                                sched.abort_r();
                            }
                        }
                    }
                }
            }
            RState::Sleep(until) => {
                deadline = None;
                let until = start + Duration::from_millis(until);
                tokio::select! {
                    biased;
                    () = sched.main_wake.notified() => {}
                    () = tokio::time::sleep_until(until) => {}
                }
                sh.tick(start);
                if Instant::now() >= until && matches!(sched.r_state(), RState::Sleep(_)) {
                    sched.make_ready();
                }
            }
            RState::Finished => {
                let dl = *end_at.get_or_insert_with(|| {
                    Instant::now() + Duration::from_millis(horizon)
                });
                let (src, wr) = {
                    let l = sh.log.snapshot();
                    (
                        l.iter().any(|r| r.ev == Ev::SourceDropped),
                        l.iter().any(|r| r.ev == Ev::WriterDropped),
                    )
                };
                if (src && wr) || Instant::now() >= dl {
                    // let late handle waiters run
                    if let Some(m) = case.handles_at.iter().chain(&case.cancel_at).max() {
                        let until = start + Duration::from_millis(u64::from(*m) + 1);
                        tokio::time::sleep_until(until).await;
                    }
                    settle(sched).await;
                    break;
                }
                tokio::select! {
                    biased;
                    () = sched.main_wake.notified() => {}
                    () = tokio::time::sleep_until(dl) => {}
                }
            }
        }
    }
    Some(content_length)
}

/// Executes the reader program. Returns false if it was aborted.
fn reader(case: &SimCase, sh: &Arc<Shared>, sd: Sd, rt: &tokio::runtime::Handle, start: Instant) -> bool {
    let mut sd = Some(sd);
    let res = std::panic::catch_unwind(AssertUnwindSafe(|| {
        let mut prog = Prog {
            case,
            sh,
            pos: 0,
            n_handles: case.handles_at.len(),
            rt,
            start,
        };
        for (i, op) in case.ops.iter().enumerate() {
            if sh.sched.aborted() {
                return false;
            }
            prog.exec(i, *op, sd.as_mut().expect("stream"));
        }
        true
    }));
    let ok = match res {
        Ok(ok) => ok && !sh.sched.aborted(),
        Err(p) => {
            if p.downcast_ref::<SimAbort>().is_none() {
                // already logged by the panic hook
            }
            false
        }
    };
    sh.ev(Ev::StreamDropped);
    let _ = std::panic::catch_unwind(AssertUnwindSafe(|| drop(sd.take())));
    ok
}

struct Prog<'a> {
    case: &'a SimCase,
    sh: &'a Arc<Shared>,
    pos: u64,
    n_handles: usize,
    rt: &'a tokio::runtime::Handle,
    start: Instant,
}

impl Prog<'_> {
    fn read_once(&mut self, i: usize, n: u32, sd: &mut Sd) -> Option<usize> {
        self.sh.ev(Ev::OpStart { i, call: CallKind::Read(n as usize), pos: self.pos });
        let mut buf = vec![0u8; n as usize];
        let r = sd.read(&mut buf);
        let (res, out) = match r {
            Ok(got) => {
                let mut bad = None;
                if got > buf.len() {
                    bad = Some(format!("read returned {got} for a buffer of {}", buf.len()));
                } else {
                    for (k, b) in buf[..got].iter().enumerate() {
                        let p = self.pos + k as u64;
                        if p >= self.case.len() {
                            bad = Some(format!("byte at {p} returned beyond the end {}", self.case.len()));
                            break;
                        }
                        let want = self.sh.byte(p);
                        if *b != want {
                            bad = Some(format!("byte at {p} is {b}, source has {want} (read of {n} at {} returned {got})", self.pos));
                            break;
                        }
                    }
                }
                self.pos += got as u64;
                (OpRes::Read { want: n as usize, got, bad }, Some(got))
            }
            Err(e) => (OpRes::Err { kind: e.kind(), msg: e.to_string() }, None),
        };
        self.sh.ev(Ev::OpEnd { i, res, pos: self.pos });
        out
    }

    fn exec(&mut self, i: usize, op: Op, sd: &mut Sd) {
        let len = self.case.len();
        let target = |t: u32| u64::from(t) % (len + 6);
        let to = match op {
            Op::Read(n) => {
                self.read_once(i, n, sd);
                return;
            }
            Op::ReadAll(n) => {
                let n = n.max(1);
                for _ in 0..(len * 2 + 16) {
                    if self.sh.sched.aborted() {
                        return;
                    }
                    match self.read_once(i, n, sd) {
                        Some(0) | None => return,
                        Some(_) => {}
                    }
                }
                return;
            }
            Op::Sleep(ms) => {
                self.sh.sched.r_sleep(u64::from(ms));
                return;
            }
            Op::Cancel => {
                self.sh.ev(Ev::CancelRequested);
                sd.cancel_download();
                return;
            }
            Op::CancelToken => {
                self.sh.ev(Ev::CancelRequested);
                sd.cancellation_token().cancel();
                return;
            }
            Op::Handle => {
                let h = sd.handle();
                let k = self.n_handles;
                self.n_handles += 1;
                let sh = self.sh.clone();
                let start = self.start;
                self.sh.ev(Ev::HandleWait { i: k });
                self.rt.spawn(async move {
                    h.wait_for_completion().await;
                    sh.tick(start);
                    sh.ev(Ev::Handle { i: k });
                });
                return;
            }
            Op::Pos => SeekFrom::Current(0),
            Op::Seek(t) => SeekFrom::Start(target(t)),
            Op::SeekCur(t) => SeekFrom::Current((target(t) as i64).wrapping_sub(self.pos as i64)),
            Op::SeekEnd(t) => SeekFrom::End(target(t) as i64 - len as i64),
            Op::RawStart(p) => SeekFrom::Start(p),
            Op::RawCur(o) => SeekFrom::Current(o),
            Op::RawEnd(o) => SeekFrom::End(o),
        };
        self.sh.ev(Ev::OpStart { i, call: CallKind::Seek(to), pos: self.pos });
        let r = if op == Op::Pos { sd.stream_position() } else { sd.seek(to) };
        let res = match r {
            Ok(p) => {
                self.pos = p;
                OpRes::Seek { pos: p }
            }
            Err(e) => OpRes::Err { kind: e.kind(), msg: e.to_string() },
        };
        self.sh.ev(Ev::OpEnd { i, res, pos: self.pos });
    }
}
