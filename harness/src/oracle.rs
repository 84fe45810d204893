//! Shared pieces of the history oracles.
use std::io::{ErrorKind, SeekFrom};

use crate::runner::Outcome;
use crate::sim::{RunResult, SimCase};
use crate::trace::{CallKind, Ev, OpRes, Rec};

/// The calls of the reader, in order.
#[derive(Debug, Clone)]
pub struct Call {
    pub i: usize,
    pub kind: CallKind,
    /// index of OpStart / OpEnd in the log
    pub from: usize,
    pub to: Option<usize>,
    pub start_pos: u64,
    pub end_pos: u64,
    pub t0: u64,
    pub t1: u64,
    pub res: OpRes,
}

impl Call {
    pub fn is_seek(&self) -> bool {
        matches!(self.kind, CallKind::Seek(_))
    }
    pub fn want(&self) -> Option<usize> {
        match self.kind {
            CallKind::Read(n) => Some(n),
            CallKind::Seek(_) => None,
        }
    }
    pub fn err(&self) -> Option<ErrorKind> {
        match &self.res {
            OpRes::Err { kind, .. } => Some(*kind),
            _ => None,
        }
    }
    pub fn desc(&self) -> String {
        match self.kind {
            CallKind::Read(n) => format!("read of {n} at {}", self.start_pos),
            CallKind::Seek(to) => format!("seek to {to:?} at {}", self.start_pos),
        }
    }
    /// Position the seek has to reach (clamped), or None if it has to fail.
    pub fn target(&self, case: &SimCase) -> Option<u64> {
        let CallKind::Seek(to) = self.kind else { return None };
        let known = case.src.known_len.then(|| case.len());
        let t = match to {
            SeekFrom::Start(p) => p,
            SeekFrom::Current(o) => self.start_pos.checked_add_signed(o)?,
            SeekFrom::End(o) => known?.checked_add_signed(o)?,
        };
        Some(known.map_or(t, |l| t.min(l)))
    }
    /// Range a call needs to be stored before it can return; None: it has to fail or needs nothing.
    pub fn needs(&self, case: &SimCase) -> Option<(u64, u64)> {
        let len = if case.src.known_len { case.len() } else { u64::MAX };
        match self.kind {
            CallKind::Read(n) => {
                let e = self.start_pos.saturating_add(n as u64).min(len);
                (e > self.start_pos).then_some((self.start_pos, e))
            }
            CallKind::Seek(_) => {
                let t = self.target(case)?;
                (t < len).then_some((t, t + 1))
            }
        }
    }
}

pub fn calls(log: &[Rec]) -> Vec<Call> {
    let mut out: Vec<Call> = vec![];
    for (k, r) in log.iter().enumerate() {
        match &r.ev {
            Ev::OpStart { i, call, pos } => out.push(Call {
                i: *i,
                kind: *call,
                from: k,
                to: None,
                start_pos: *pos,
                end_pos: *pos,
                t0: r.t,
                t1: r.t,
                res: OpRes::Stuck,
            }),
            Ev::OpEnd { res, pos, .. } => {
                if let Some(c) = out.last_mut() {
                    c.to = Some(k);
                    c.res = res.clone();
                    c.end_pos = *pos;
                    c.t1 = r.t;
                }
            }
            _ => {}
        }
    }
    out
}

/// Panics, endless loops and calls that never return.
pub fn liveness(r: &RunResult, out: &mut Outcome) {
    no_panics(r, out);
    if let Some(c) = hung_call(r) {
        out.problem(format!("{} never returned", c.desc()));
    }
}

pub fn no_panics(r: &RunResult, out: &mut Outcome) {
    for e in &r.log {
        match &e.ev {
            Ev::Panic { who, msg } => out.problem(format!("panic in {who:?}: {msg}")),
            Ev::Livelock => out.problem("no progress after many steps (livelock)"),
            _ => {}
        }
    }
}

pub fn hung_call(r: &RunResult) -> Option<Call> {
    has(&r.log, |e| matches!(e, Ev::Hang { .. })).then(|| calls(&r.log).pop())?
}

/// Byte-exactness of successful reads.
pub fn bytes_ok(calls: &[Call], out: &mut Outcome) {
    for c in calls {
        if let OpRes::Read { bad: Some(b), .. } = &c.res {
            out.problem(b.clone());
        }
    }
}

/// No read reports end of file before the end.
pub fn no_early_eof(case: &SimCase, calls: &[Call], out: &mut Outcome) {
    for c in calls {
        if let OpRes::Read { want, got: 0, .. } = &c.res
            && *want > 0
            && c.start_pos < case.len()
        {
            out.problem(format!("{} reported end of file, content length {}", c.desc(), case.len()));
        }
    }
}

/// Errors that a download which neither failed nor was cancelled may report.
pub fn expected_error(case: &SimCase, c: &Call) -> bool {
    match c.err() {
        None => true,
        // the region skipped by a seek was never fetched: gaps are only filled if the length is known
        // and the storage can hold them
        Some(ErrorKind::UnexpectedEof) => {
            let fills_gaps = case.src.known_len && case.store.kind.bounded(true).is_none_or(|cap| cap >= case.len());
            !c.is_seek() && case.src.seekable && !fills_gaps
        }
        Some(ErrorKind::InvalidInput) => {
            case.store.kind.bounded(case.src.known_len).is_some() || (c.is_seek() && c.target(case).is_none())
        }
        Some(ErrorKind::Unsupported) => matches!(c.kind, CallKind::Seek(SeekFrom::End(_))) && !case.src.known_len,
        Some(_) => false,
    }
}

pub fn only_expected_errors(case: &SimCase, calls: &[Call], out: &mut Outcome) {
    for c in calls {
        if !expected_error(case, c) {
            out.problem(format!("{} failed: {:?}", c.desc(), c.res));
        }
    }
}

pub fn index_of(log: &[Rec], f: impl Fn(&Ev) -> bool) -> Option<usize> {
    log.iter().position(|r| f(&r.ev))
}
pub fn has(log: &[Rec], f: impl Fn(&Ev) -> bool) -> bool {
    log.iter().any(|r| f(&r.ev))
}
pub fn count(log: &[Rec], f: impl Fn(&Ev) -> bool) -> usize {
    log.iter().filter(|r| f(&r.ev)).count()
}

/// Position/coverage state that follows from the log.
#[derive(Default)]
pub struct Walk {
    /// writer position
    pub w: u64,
    /// start of the contiguous data that ends at the writer position
    pub window_start: u64,
    /// position of the storage reader
    pub r: u64,
    pub stored: Vec<bool>,
}

impl Walk {
    pub fn apply(&mut self, ev: &Ev) {
        match ev {
            Ev::Write { pos, len, .. } => {
                let (from, end) = (*pos as usize, *pos as usize + *len);
                if self.stored.len() < end {
                    self.stored.resize(end, false);
                }
                self.stored[from..end].fill(true);
                self.w = end as u64;
            }
            Ev::WSeek { pos } => {
                if *pos != self.w {
                    self.window_start = *pos;
                }
                self.w = *pos;
            }
            Ev::SRead { pos, len } => self.r = pos + *len as u64,
            Ev::SSeek { pos } => self.r = *pos,
            _ => {}
        }
    }
    pub fn has(&self, p: u64) -> bool {
        self.stored.get(p as usize).copied().unwrap_or(false)
    }
    pub fn all(&self, from: u64, to: u64) -> bool {
        (from..to).all(|p| self.has(p))
    }
    /// First position from `from` on (up to `to`) that isn't stored.
    pub fn gap(&self, from: u64, to: u64) -> Option<u64> {
        (from..to).find(|p| !self.has(*p))
    }
}

/// Whether the SeekRange event at `k` was issued to fill a gap after the end of a response.
pub fn is_gap_fill(log: &[Rec], k: usize) -> bool {
    for r in log[..k].iter().rev() {
        match &r.ev {
            Ev::ItemEnd { .. } => return true,
            Ev::Chunk { .. }
            | Ev::ItemErr
            | Ev::StallBegin
            | Ev::SeekRange { .. }
            | Ev::SeekRangeDone { .. }
            | Ev::Reconnect { .. }
            | Ev::ReconnectDone { .. }
            | Ev::ReconnectDropped => return false,
            _ => {}
        }
    }
    false
}

/// Prefetch phase of the download, as far as it follows from the log.
pub struct Phase {
    pub target: u64,
    /// Start of the active phase.
    pub active: Option<u64>,
    /// Whether the active phase has written something yet.
    pub wrote: bool,
}

impl Phase {
    pub fn new(target: u64) -> Self {
        Self { target, active: (target > 0).then_some(0), wrote: false }
    }
}
