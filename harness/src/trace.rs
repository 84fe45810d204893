//! Event log of one simulated case, shared by both actors.
use std::sync::{Arc, Mutex};

use stream_download::StreamPhase;

use crate::sched::{Actor, Sched};

#[derive(Clone, Debug, PartialEq)]
pub enum OpRes {
    /// Bytes returned by a read (None = content mismatch details in `bad`).
    Read { want: usize, got: usize, bad: Option<String> },
    Seek { pos: u64 },
    Err { kind: std::io::ErrorKind, msg: String },
    Unit,
    /// The call did not return.
    Stuck,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CallKind {
    Read(usize),
    Seek(std::io::SeekFrom),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// R starts op `i` at model position `pos`.
    OpStart { i: usize, call: CallKind, pos: u64 },
    OpEnd { i: usize, res: OpRes, pos: u64 },
    // source
    Chunk { pos: u64, len: u64 },
    ItemErr,
    ItemEnd { pos: u64, early: bool },
    StallBegin,
    SeekRange { start: u64, end: Option<u64> },
    SeekRangeDone { ok: bool },
    Reconnect { pos: u64 },
    ReconnectDone { ok: bool },
    ReconnectDropped,
    ReconnectCb,
    Finish { ok: bool, kind: Option<std::io::ErrorKind>, cancelled: bool },
    FinishDone { ok: bool },
    SourceDropped,
    // storage
    Write { pos: u64, asked: usize, len: usize, bad: bool },
    WriteErr,
    WSeek { pos: u64 },
    WFlush,
    WFlushErr,
    WSeekErr,
    WriterDropped,
    /// The storage reader is called.
    SBegin,
    /// The storage writer is called.
    WBegin,
    SFail,
    SRead { pos: u64, len: usize },
    SSeek { pos: u64 },
    ReaderDropped,
    // misc
    Progress { pos: u64, chunk: (u64, u64), phase: StreamPhase },
    CancelRequested,
    /// A handle starts to wait.
    HandleWait { i: usize },
    Handle { i: usize },
    StreamDropped,
    Panic { who: Actor, msg: String },
    Hang { op: usize },
    Livelock,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub t: u64,
    pub ev: Ev,
}

#[derive(Default)]
pub struct Log(Mutex<Vec<Rec>>);

impl Log {
    pub fn snapshot(&self) -> Vec<Rec> {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).clone()
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}

/// Everything the instrumented pieces of one case share.
pub struct Shared {
    pub sched: Arc<Sched>,
    pub log: Log,
    pub salt: u8,
    pub len: u64,
}

impl Shared {
    pub fn ev(&self, ev: Ev) {
        let t = self.sched.now();
        self.log
            .0
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .push(Rec { t, ev });
    }
    /// Refreshes the virtual clock from the paused tokio clock (D only).
    pub fn tick(&self, start: tokio::time::Instant) {
        self.sched
            .set_now(start.elapsed().as_millis() as u64);
    }
    /// Error of an injected fault. The kind varies since nothing may depend on it.
    pub fn fault(&self, msg: &str) -> std::io::Error {
        use std::io::ErrorKind::*;
        const KINDS: [std::io::ErrorKind; 10] = [
            Other, UnexpectedEof, TimedOut, InvalidInput, ConnectionReset, WouldBlock, BrokenPipe, Unsupported, NotFound,
            Interrupted,
        ];
        std::io::Error::new(KINDS[usize::from(self.salt) % KINDS.len()], msg.to_string())
    }
    #[inline]
    pub fn byte(&self, pos: u64) -> u8 {
        content(self.salt, pos)
    }
}

/// Source content: never zero, period co-prime to powers of two.
#[inline]
pub fn content(salt: u8, pos: u64) -> u8 {
    let x = pos
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .rotate_left(u32::from(salt) % 63 + 1)
        .wrapping_add(pos >> 3);
    (x % 251) as u8 + 1
}
