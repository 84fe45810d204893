//! Process pipelines (C20).
use std::collections::BTreeSet;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::os::fd::FromRawFd;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::process::Stdio;
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use stream_download::process::{Command, CommandBuilder, ProcessStream, ProcessStreamParams};
use stream_download::source::SourceStream;
use stream_download::storage::StorageProvider;
use stream_download::storage::memory::{MemoryStorage, MemoryStorageProvider};
use stream_download::{Settings, StreamDownload, StreamInitializationError};

use crate::netchecks::{Driver, ROp, byte, rops, workers};
use crate::runner::{AnyCheck, Check, Outcome};
use crate::sim::scratch;

pub const ALL: &[&dyn AnyCheck] = &[&C20];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Exit(u8),
    /// stays after so many bytes without closing its output
    Hang(u32),
    /// closes input and output after so many bytes and exits
    Stop(u32, u8),
    /// closes its output when done and exits so many ms later
    Linger(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Stage {
    end: End,
    stderr: u16,
    piece: u16,
    pause_ms: u8,
    /// standard error goes nowhere instead of to a temporary file
    quiet: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Action {
    Complete { ops: Vec<ROp>, known: bool },
    /// cancelled, or dropped, after a read of so many bytes
    Cancel { after: u16, drop: bool },
    /// dropped without cancellation
    Leave { after: u16 },
    StorageFails(u16),
    StorageCreation,
    /// never becomes a stream / a stream that is never polled
    Unused { stream: bool, declared: Option<u64> },
    /// this command does not exist
    Missing(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ProcCase {
    size: u32,
    stages: Vec<Stage>,
    action: Action,
    prefetch: u16,
    batch: u16,
}

static C20: Check<ProcCase> = Check {
    id: "C20",
    rule: "a pipeline of at least two commands, or a stream that was cancelled, dropped, failed or could not be created while commands were running",
    assumptions: &["the commands are stand-ins with scripted behaviour", "processes are observed through /proc"],
    quick: 10_000,
    thorough: 250_000,
    strategy: || {
        let size = prop_oneof![1 => Just(0u32), 6 => 0u32..300, 4 => 0u32..20_000, 2 => 60_000u32..300_000];
        let stage = || {
            (
                prop_oneof![
                    6 => prop_oneof![3 => Just(0u8), 1 => 1u8..=255].prop_map(End::Exit),
                    1 => prop_oneof![0u32..300, 0u32..100_000].prop_map(End::Hang),
                    1 => (prop_oneof![0u32..300, 0u32..100_000], 0u8..3).prop_map(|(a, b)| End::Stop(a, b)),
                    1 => (1u8..60).prop_map(End::Linger),
                ],
                prop_oneof![2 => Just(0u16), 1 => 0u16..300, 1 => Just(60_000u16)],
                prop_oneof![1 => 1u16..200, 2 => Just(8192u16)],
                prop_oneof![8 => Just(0u8), 1 => 1u8..4],
                prop::bool::weighted(0.3),
            )
                .prop_map(|(end, stderr, piece, pause_ms, quiet)| Stage { end, stderr, piece, pause_ms, quiet })
        };
        let action = prop_oneof![
            4 => (rops(6), any::<bool>()).prop_map(|(ops, known)| Action::Complete { ops, known }),
            3 => (prop_oneof![Just(0u16), 0u16..300], any::<bool>()).prop_map(|(after, drop)| Action::Cancel { after, drop }),
            1 => (0u16..300).prop_map(|after| Action::Leave { after }),
            1 => (0u16..300).prop_map(Action::StorageFails),
            1 => Just(Action::StorageCreation),
            1 => (any::<bool>(), prop_oneof![Just(None), Just(Some(0)), any::<u64>().prop_map(Some)])
                .prop_map(|(stream, declared)| Action::Unused { stream, declared }),
            1 => any::<u8>().prop_map(Action::Missing),
        ];
        (size, prop_oneof![12 => vec(stage(), 1..4), 1 => vec(stage(), 4..7)], action, prop_oneof![Just(0u16), 0u16..400], prop_oneof![1 => 1u16..600, 1 => Just(4096u16)])
            .prop_map(|(size, mut stages, action, prefetch, batch)| {
                if matches!(action, Action::Complete { .. } | Action::Leave { .. }) {
                    // somebody has to end it
                    for s in &mut stages {
                        if matches!(s.end, End::Hang(_)) {
                            s.end = End::Exit(0);
                        }
                    }
                }
                for s in &mut stages {
                    if size > 1000 {
                        s.piece = s.piece.max(2000);
                        s.pause_ms = 0;
                    }
                    if s.piece < 50 {
                        s.pause_ms = 0;
                    }
                }
                ProcCase { size, stages, action, prefetch, batch }
            })
            .boxed()
    },
    run: c20,
    case_limit_s: 90,
    shards: 12,
};

// ---- the stand-in

/// argv: sd-stage INDEX SIZE END ARG CODE STDERR PIECE PAUSE
pub fn stage_main() -> Option<i32> {
    let args: Vec<_> = std::env::args_os().collect();
    if Path::new(args.first()?).file_name()?.as_bytes() != b"sd-stage" {
        return None;
    }
    let n = |i: usize| args.get(i).and_then(|a| a.to_str()).and_then(|a| a.parse::<u64>().ok()).unwrap_or(0);
    // never outlives a forgotten test
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(120));
        std::process::exit(9);
    });
    let (index, size, end, arg, code, stderr, piece, pause) = (n(1), n(2), n(3), n(4), n(5), n(6), n(7).max(1), n(8));
    let _ = io::stderr().write_all(&vec![b'e'; stderr as usize]);
    let limit = if end == 0 || end == 3 { u64::MAX } else { arg };
    let mut done = 0u64;
    let mut stdin = io::stdin().lock();
    let mut out = io::stdout().lock();
    while done < limit {
        let want = piece.min(limit - done) as usize;
        let chunk: Vec<u8> = if index == 0 {
            let e = (done + want as u64).min(size);
            (done..e).map(|i| byte(11, i)).collect()
        } else {
            let mut b = vec![0; want];
            match stdin.read(&mut b) {
                Ok(k) => b.truncate(k),
                Err(_) => return Some(4),
            }
            b.iter().map(|x| x ^ mask(index)).collect()
        };
        if chunk.is_empty() {
            break;
        }
        done += chunk.len() as u64;
        if out.write_all(&chunk).and_then(|()| out.flush()).is_err() {
            return Some(3);
        }
        if pause > 0 {
            std::thread::sleep(Duration::from_millis(pause));
        }
    }
    if end == 1 {
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
    if end == 3 {
        // SAFETY: nothing is written to standard output from here on
        drop(unsafe { std::os::fd::OwnedFd::from_raw_fd(1) });
        std::thread::sleep(Duration::from_millis(arg));
        std::process::exit(code as i32);
    }
    Some(code as i32)
}

fn mask(index: u64) -> u8 {
    (index * 37 + 1) as u8
}

fn program() -> &'static PathBuf {
    static P: OnceLock<PathBuf> = OnceLock::new();
    P.get_or_init(|| {
        let dir = scratch().join("stages");
        std::fs::create_dir_all(&dir).expect("stage directory");
        let p = dir.join("sd-stage");
        std::os::unix::fs::symlink(std::env::current_exe().expect("own path"), &p).expect("stage");
        p
    })
}

pub fn tmpdir() -> PathBuf {
    let p = scratch().join("tmp");
    let _ = std::fs::create_dir_all(&p);
    p
}

// ---- observation

/// Our children, zombies included, with their start times.
fn children() -> BTreeSet<(u32, u64)> {
    let me = std::process::id();
    let mut found = BTreeSet::new();
    if let Ok(d) = std::fs::read_dir("/proc") {
        for e in d.flatten() {
            let Some(pid) = e.file_name().to_str().and_then(|s| s.parse::<u32>().ok()) else { continue };
            if let Ok(stat) = std::fs::read_to_string(format!("/proc/{pid}/stat"))
                && let Some(end) = stat.rfind(')')
            {
                let f: Vec<&str> = stat[end + 1..].split_whitespace().collect();
                if f.get(1).and_then(|p| p.parse::<u32>().ok()) == Some(me) {
                    found.insert((pid, f.get(19).and_then(|t| t.parse().ok()).unwrap_or(0)));
                }
            }
        }
    }
    found
}

/// Whether this is the given command of a pipeline; unknown once it has exited.
fn is_stage(pid: u32, index: usize) -> bool {
    std::fs::read(format!("/proc/{pid}/cmdline"))
        .is_ok_and(|c| c.split(|b| *b == 0).nth(1).is_some_and(|a| a == index.to_string().as_bytes()))
}

fn files() -> BTreeSet<PathBuf> {
    std::fs::read_dir(tmpdir()).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default()
}

struct FailingWriter(MemoryStorage, u64);
impl Write for FailingWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.1 == 0 {
            return Err(io::Error::other("full"));
        }
        let n = buf.len().min(usize::try_from(self.1).unwrap_or(usize::MAX));
        let n = self.0.write(&buf[..n])?;
        self.1 -= n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}
impl Seek for FailingWriter {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.0.seek(p)
    }
}
struct Failing(Option<u64>);
impl StorageProvider for Failing {
    type Reader = MemoryStorage;
    type Writer = FailingWriter;
    fn into_reader_writer(self, _: Option<u64>) -> io::Result<(MemoryStorage, FailingWriter)> {
        let Some(n) = self.0 else { return Err(io::Error::other("no storage")) };
        let (r, w) = MemoryStorageProvider.into_reader_writer(None)?;
        Ok((r, FailingWriter(w, n)))
    }
}

// ---- the check

fn command(case: &ProcCase, i: usize, missing: bool) -> Command {
    let s = &case.stages[i];
    let (end, arg, code) = match s.end {
        End::Exit(c) => (0, 0, c),
        End::Hang(k) => (1, k, 0),
        End::Stop(k, c) => (2, k, c),
        End::Linger(ms) => (3, u32::from(ms), 0),
    };
    let prog = if missing { program().with_file_name("missing") } else { program().clone() };
    let mut c = Command::new(prog).args(
        [i as u64, u64::from(case.size), end, u64::from(arg), u64::from(code), u64::from(s.stderr), u64::from(s.piece), u64::from(s.pause_ms)]
            .map(|n| n.to_string()),
    );
    if s.quiet {
        c = c.stderr_handle(Stdio::null());
    }
    c
}

/// What the last command writes, and whether it ends.
fn expected(case: &ProcCase) -> (Vec<u8>, bool) {
    let mut data: Vec<u8> = (0..u64::from(case.size)).map(|i| byte(11, i)).collect();
    let mut ends = true;
    for (i, s) in case.stages.iter().enumerate() {
        if i > 0 {
            for b in &mut data {
                *b ^= mask(i as u64);
            }
        }
        match s.end {
            End::Exit(_) | End::Linger(_) => {}
            End::Hang(k) => {
                data.truncate(k as usize);
                ends = false;
            }
            End::Stop(k, _) => {
                if data.len() as u64 >= u64::from(k) {
                    ends = true;
                }
                data.truncate(k as usize);
            }
        }
    }
    (data, ends)
}

fn settings(case: &ProcCase) -> Settings<ProcessStream> {
    Settings::default()
        .prefetch_bytes(u64::from(case.prefetch))
        .batch_write_size(std::num::NonZeroUsize::new(usize::from(case.batch).max(1)).unwrap())
        .retry_timeout(Duration::from_secs(3600))
}

/// A download that got everything is finished when its final command is.
fn waited(last: Option<(u32, u64)>, out: &mut Outcome) {
    if last.is_some_and(|p| children().contains(&p)) {
        out.problem("the download is finished, but its final command isn't");
    }
}

fn c20(case: &ProcCase) -> Outcome {
    static SPAWN: Mutex<()> = Mutex::new(());
    let mut out = Outcome::default();
    let _rt = workers().enter();
    let n = case.stages.len();
    let missing = match case.action {
        Action::Missing(i) => Some(usize::from(i) % n),
        _ => None,
    };
    program();
    let (made, mine, my_files, last) = {
        let _one = SPAWN.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
        let (c0, f0) = (children(), files());
        let made = if n == 1 {
            ProcessStreamParams::new(command(case, 0, missing == Some(0)))
        } else {
            let mut b = CommandBuilder::new(command(case, 0, missing == Some(0)));
            for i in 1..n {
                b = b.pipe(command(case, i, missing == Some(i)));
            }
            ProcessStreamParams::new(b)
        };
        let mine: BTreeSet<_> = children().difference(&c0).copied().collect();
        // files of other cases only disappear meanwhile
        let my_files: BTreeSet<_> = files().difference(&f0).cloned().collect();
        let last = mine.iter().find(|p| is_stage(p.0, n - 1)).copied();
        (made, mine, my_files, last)
    };
    let (want, ends) = expected(case);
    // whether everything has to be gone at once, or as soon as the kernel and the runtime get to it
    let mut at_once = true;
    // commands that are still busy when the last one has finished may go on
    let mut lenient = false;
    out.nontrivial = n > 1;
    match made {
        Err(e) => {
            if missing.is_none() {
                out.problem(format!("spawning failed: {e}"));
            }
            out.class("command missing");
            out.nontrivial = true;
            at_once = false;
        }
        Ok(params) => {
            if missing.is_some() {
                out.problem("a missing command was spawned");
            }
            if mine.len() != n && missing.is_none() {
                out.problem(format!("{} processes for {n} commands", mine.len()));
            }
            let noisy = case.stages.iter().filter(|s| !s.quiet).count();
            if my_files.len() != noisy {
                out.problem(format!("{} temporary files for {noisy} commands", my_files.len()));
            }
            let rt = workers();
            let params = match case.action {
                Action::Complete { known: true, .. } if ends => params.content_length(want.len() as u64),
                _ => params,
            };
            match &case.action {
                Action::Unused { stream, declared } => {
                    if *stream {
                        let params = match declared {
                            Some(len) => params.content_length(*len),
                            None => params,
                        };
                        let Ok(s) = rt.block_on(ProcessStream::create(params));
                        if s.supports_seek() || s.content_length() != *declared {
                            out.problem(format!("a stream of length {:?}, declared {declared:?}, seekable {}", s.content_length(), s.supports_seek()));
                        }
                        drop(s);
                    } else {
                        drop(params);
                    }
                    at_once = false;
                    out.class("unused");
                    out.nontrivial = true;
                }
                Action::StorageCreation => {
                    let r = rt.block_on(StreamDownload::new_process(params, Failing(None), settings(case)));
                    if !matches!(r, Err(StreamInitializationError::StorageCreationFailure(_))) {
                        out.problem("the storage's creation error is not reported");
                    }
                    at_once = false;
                    out.class("no storage");
                    out.nontrivial = true;
                }
                Action::StorageFails(k) => {
                    let r = rt.block_on(StreamDownload::new_process(params, Failing(Some(u64::from(*k))), settings(case)));
                    let Ok(mut r) = r else { return Outcome::fail("creation failed") };
                    if want.len() as u64 > u64::from(*k) {
                        let mut got = vec![];
                        let res = r.read_to_end(&mut got);
                        if res.is_ok() || !want.starts_with(&got) {
                            out.problem(format!("storage fails after {k} bytes, read {} bytes: {res:?}", got.len()));
                        }
                        out.class("storage fails");
                        out.nontrivial = true;
                    } else if !ends {
                        r.cancel_download();
                    }
                    rt.block_on(r.handle().wait_for_completion());
                    lenient = ends && want.len() as u64 <= u64::from(*k);
                    at_once = !lenient;
                }
                Action::Complete { ops, known } => {
                    let r = rt.block_on(StreamDownload::new_process(params, MemoryStorageProvider, settings(case)));
                    let Ok(mut r) = r else { return Outcome::fail("creation failed") };
                    let known = *known && ends;
                    if r.content_length() != known.then_some(want.len() as u64) {
                        out.problem(format!("content length {:?}", r.content_length()));
                    }
                    if ends {
                        let d = Driver { body: &want, known, errors_allowed: false, short_allowed: false };
                        d.play(&mut r, ops, true, &mut out);
                    } else {
                        r.cancel_download();
                    }
                    let h = r.handle();
                    rt.block_on(h.wait_for_completion());
                    if ends {
                        waited(last, &mut out);
                    }
                    out.class("complete");
                    at_once = false;
                    lenient = ends;
                }
                Action::Cancel { after, drop: dropped } => {
                    let r = rt.block_on(StreamDownload::new_process(params, MemoryStorageProvider, settings(case)));
                    let Ok(mut r) = r else { return Outcome::fail("creation failed") };
                    let k = usize::from(*after).min(want.len());
                    // a read waits for the prefetched amount
                    if k > 0 && (ends || want.len() >= k.max(usize::from(case.prefetch))) {
                        let mut buf = vec![0; k];
                        match r.read_exact(&mut buf) {
                            Ok(()) if buf == want[..k] => {}
                            res => out.problem(format!("reading {k} of {} bytes: {res:?}", want.len())),
                        }
                    }
                    let h = r.handle();
                    if *dropped {
                        drop(r);
                    } else {
                        r.cancel_download();
                    }
                    rt.block_on(h.wait_for_completion());
                    // it may have been completed before
                    lenient = ends;
                    at_once = !ends;
                    out.class("cancelled");
                    out.nontrivial = true;
                }
                Action::Leave { after } => {
                    let r = rt.block_on(StreamDownload::new_process(
                        params,
                        MemoryStorageProvider,
                        settings(case).cancel_on_drop(false),
                    ));
                    let Ok(mut r) = r else { return Outcome::fail("creation failed") };
                    let k = usize::from(*after).min(want.len());
                    let mut buf = vec![0; k];
                    match r.read_exact(&mut buf) {
                        Ok(()) if buf == want[..k] => {}
                        res => out.problem(format!("reading {k} of {} bytes: {res:?}", want.len())),
                    }
                    let h = r.handle();
                    drop(r);
                    rt.block_on(h.wait_for_completion());
                    if ends {
                        waited(last, &mut out);
                    }
                    lenient = ends;
                    at_once = false;
                    out.class("left");
                }
                Action::Missing(_) => {}
            }
        }
    }
    // temporary files are gone now
    for f in &my_files {
        if f.exists() {
            out.problem("a temporary file for standard error is left");
        }
    }
    // a finished pipeline has no hanging commands (see the generator), except upstream of one that
    // stopped early
    let hangs = lenient && case.stages.iter().any(|s| matches!(s.end, End::Hang(_)));
    let t0 = Instant::now();
    let mut left: Vec<_>;
    loop {
        let now = children();
        left = mine.intersection(&now).copied().collect();
        if left.is_empty() || at_once || hangs || t0.elapsed() > Duration::from_secs(30) {
            break;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    if !left.is_empty() {
        if !hangs {
            let states: Vec<String> = left
                .iter()
                .map(|p| {
                    std::fs::read_to_string(format!("/proc/{}/stat", p.0))
                        .ok()
                        .and_then(|s| s.rsplit(')').next().and_then(|r| r.split_whitespace().next().map(String::from)))
                        .unwrap_or_default()
                })
                .collect();
            out.problem(format!("{} of {n} processes are left, in states {states:?}", left.len()));
        }
        // they are our own children and have not been reaped
        let _one = SPAWN.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
        for p in &left {
            let _ = std::process::Command::new("kill").args(["-9", &p.0.to_string()]).status();
        }
    }
    out
}
