//! Properties decided by simulating the reader/downloader pair.
use std::io::ErrorKind;

use stream_download::StreamPhase;

use crate::r#gen::{self, Cfg};
use crate::huge::Mixed;
use crate::oracle::*;
use crate::runner::{AnyCheck, Check, Outcome};
use crate::sim::{RunResult, SimCase, run_case};
use crate::trace::{CallKind, Ev, OpRes};

pub const ALL: &[&dyn AnyCheck] = &[
    &C01, &C02, &C03, &C04, &C05, &C06, &C07, &C08, &C09, &C10, &C12, &C13, &C15,
];

const SIM_ASSUMPTIONS: &[&str] = &[
    "interleavings are explored at lock, condition-variable, storage, source-poll and trace-event granularity under sequential consistency",
    "the storage and source are the harness' instrumented ones; content lengths are bounded by the generator",
];

const fn check(
    id: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    strategy: fn() -> proptest::strategy::BoxedStrategy<SimCase>,
    run: fn(&SimCase) -> Outcome,
) -> Check<SimCase> {
    Check { id, rule, assumptions: SIM_ASSUMPTIONS, quick, thorough, strategy, run, case_limit_s: 60, shards: 8 }
}

/// of 1000 cases
const HUGE_SHARE: u32 = 10;

const fn mixed_check(
    id: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    strategy: fn() -> proptest::strategy::BoxedStrategy<Mixed>,
    run: fn(&Mixed) -> Outcome,
) -> Check<Mixed> {
    Check { id, rule, assumptions: SIM_ASSUMPTIONS, quick, thorough, strategy, run, case_limit_s: 60, shards: 8 }
}

const ALL_KINDS: [u32; 6] = [4, 2, 3, 2, 2, 2];

fn jumps(r: &RunResult) -> usize {
    count(&r.log, |e| matches!(e, Ev::SeekRange { .. }))
}

// ---------------------------------------------------------------- C01

static C01: Check<Mixed> = mixed_check(
    "C01",
    "fault-free source; the program read at least 2 bytes and at least one call had to wait or the source delivered several chunks",
    200_000,
    4_000_000,
    || crate::huge::mixed(r#gen::case(Cfg { over: true, ..Cfg::BASE }), HUGE_SHARE),
    |c| match c {
        Mixed::Sim(c) => c01(c),
        Mixed::Huge(c) => crate::huge::run("C01", c),
    },
);

fn c01(case: &SimCase) -> Outcome {
    let r = run_case(case);
    let mut out = Outcome::default();
    let calls = calls(&r.log);
    bytes_ok(&calls, &mut out);
    no_early_eof(case, &calls, &mut out);
    only_expected_errors(case, &calls, &mut out);
    liveness(&r, &mut out);
    // reading to the end yields exactly the rest
    if let (Some(last), Some(crate::sim::Op::ReadAll(_))) = (calls.last(), case.ops.last())
        && let OpRes::Read { want, got: 0, .. } = last.res
        && want > 0
        && last.start_pos < case.len()
    {
        out.problem("reading to the end stopped before the end");
    }
    let read: u64 = calls.iter().filter(|c| !c.is_seek()).map(|c| c.end_pos.saturating_sub(c.start_pos)).sum();
    out.nontrivial = read >= 2 && count(&r.log, |e| matches!(e, Ev::Chunk { .. })) >= 2;
    if jumps(&r) > 0 {
        out.class("source seek");
    }
    if calls.iter().any(|c| c.err() == Some(ErrorKind::UnexpectedEof)) {
        out.class("skipped region of unknown length stream");
    }
    out
}

// ---------------------------------------------------------------- C02

static C02: Check<Mixed> = mixed_check(
    "C02",
    "at least two seeks were made, one of them to a position that was neither the current one nor (before) stored, or invalid",
    200_000,
    4_000_000,
    || crate::huge::mixed({
        r#gen::case(Cfg {
            over: true,
            raw_seeks: true,
            max_ops: 12,
            seekable: (2, 1),
            known: (2, 1),
            ..Cfg::BASE
        })
    }, HUGE_SHARE),
    |c| match c {
        Mixed::Sim(c) => c02(c),
        Mixed::Huge(c) => crate::huge::run("C02", c),
    },
);

fn c02(case: &SimCase) -> Outcome {
    let r = run_case(case);
    let mut out = Outcome::default();
    let calls = calls(&r.log);
    let mut interesting = false;
    let mut n = 0;
    for c in calls.iter().filter(|c| c.is_seek()) {
        n += 1;
        match (c.target(case), &c.res) {
            (_, OpRes::Stuck) => {}
            (None, OpRes::Err { .. }) => {
                interesting = true;
                out.class("rejected seek");
            }
            (None, res) => out.problem(format!("{} has no valid target but returned {res:?}", c.desc())),
            (Some(t), OpRes::Seek { pos }) if *pos == t => {
                interesting |= t != c.start_pos;
                if t != c.start_pos && t >= case.len() {
                    out.class("seek to or past the end");
                }
            }
            (Some(t), res) => out.problem(format!("{} has to end at {t} but returned {res:?}", c.desc())),
        }
    }
    bytes_ok(&calls, &mut out);
    no_early_eof(case, &calls, &mut out);
    only_expected_errors(case, &calls, &mut out);
    liveness(&r, &mut out);
    out.nontrivial = n >= 2 && interesting;
    out
}

// ---------------------------------------------------------------- C03

static C03: Check<SimCase> = check(
    "C03",
    "at least one call had to block, and the case contains a fault, a bounded storage, a seek or a cancellation",
    200_000,
    5_000_000,
    || {
        r#gen::case(Cfg {
            over: true,
            kinds: [3, 1, 4, 2, 2, 2],
            empties: 2,
            errs: 1,
            stalls: 1,
            dead: 1,
            early_end: 1,
            rec_faults: true,
            seek_delays: true,
            seek_errs: true,
            store_faults: true,
            finish: true,
            raw_seeks: true,
            cancels: 1,
            handles: true,
            no_cancel_on_drop: true,
            over_reads: true,
            ..Cfg::BASE
        })
    },
    c03,
);

fn c03(case: &SimCase) -> Outcome {
    let r = run_case(case);
    let mut out = Outcome::default();
    liveness(&r, &mut out);
    let calls = calls(&r.log);
    let waited = calls.iter().any(|c| c.to.is_some_and(|to| r.log[c.from..to].iter().any(|e| matches!(e.ev, Ev::Chunk { .. } | Ev::Finish { .. }))));
    out.nontrivial = waited;
    if case.store.kind.bounded(case.src.known_len).is_some() {
        out.class("bounded");
    }
    if has(&r.log, |e| matches!(e, Ev::Reconnect { .. })) {
        out.class("reconnect");
    }
    if has(&r.log, |e| matches!(e, Ev::Finish { cancelled: true, .. })) {
        out.class("cancelled");
    }
    if has(&r.log, |e| matches!(e, Ev::FinishDone { ok: false })) {
        out.class("failed or cancelled");
    }
    if jumps(&r) > 0 {
        out.class("source seek");
    }
    out
}

// ---------------------------------------------------------------- C04

static C04: Check<Mixed> = mixed_check(
    "C04",
    "the source fell silent while the program was running, or a read was held back by a prefetch phase",
    200_000,
    4_000_000,
    || crate::huge::mixed({
        r#gen::case(Cfg {
            silent: 3,
            errs: 1,
            seek_delays: false,
            ..Cfg::BASE
        })
    }, HUGE_SHARE),
    |c| match c {
        Mixed::Sim(c) => c04(c),
        Mixed::Huge(c) => crate::huge::run("C04", c),
    },
);

/// Bytes that may be handed to a reader: those stored outside of an active prefetch phase.
struct Gate {
    walk: Walk,
    phase: Phase,
    released: Vec<bool>,
    known: Option<u64>,
}

impl Gate {
    fn new(case: &SimCase) -> Self {
        Self {
            walk: Walk::default(),
            phase: Phase::new(case.prefetch_target()),
            released: vec![],
            known: case.src.known_len.then(|| case.len()),
        }
    }
    fn release(&mut self, from: u64, to: u64) {
        if self.released.len() < to as usize {
            self.released.resize(to as usize, false);
        }
        for p in from..to {
            self.released[p as usize] = true;
        }
    }
    fn end_phase(&mut self) {
        if let Some(s) = self.phase.active.take() {
            self.release(s, self.walk.w);
        }
    }
    fn apply(&mut self, log: &[crate::trace::Rec], k: usize) {
        let ev = &log[k].ev;
        match ev {
            Ev::Write { pos, len, .. } => {
                self.walk.apply(ev);
                match self.phase.active {
                    None => self.release(*pos, pos + *len as u64),
                    Some(s) => {
                        let rest_stored = self.known.is_some_and(|l| self.walk.gap(self.walk.w, l).is_none());
                        if self.walk.w >= s.saturating_add(self.phase.target) || rest_stored {
                            self.end_phase();
                        }
                    }
                }
            }
            Ev::ItemEnd { .. } => self.end_phase(),
            Ev::SeekRange { start, .. } => {
                if !is_gap_fill(log, k) {
                    if self.phase.active.is_some() {
                        self.end_phase();
                    } else if self.phase.target > 0 {
                        self.phase.active = Some(*start);
                    }
                }
            }
            _ => self.walk.apply(ev),
        }
    }
    fn ready(&self, from: u64, to: u64) -> bool {
        (from..to).all(|p| self.released.get(p as usize).copied().unwrap_or(false))
    }
}

fn c04(case: &SimCase) -> Outcome {
    let r = run_case(case);
    let mut out = Outcome::default();
    let calls = calls(&r.log);
    no_panics(&r, &mut out);
    bytes_ok(&calls, &mut out);
    let delays = case.sched.preempt.iter().any(|p| p.1 > 0);
    let mut gate = Gate::new(case);
    let mut cur = 0;
    let mut ready_at_start = false;
    for (k, rec) in r.log.iter().enumerate() {
        match &rec.ev {
            Ev::OpStart { .. } => {
                let c = &calls[cur];
                ready_at_start = c.needs(case).is_some_and(|(a, b)| gate.ready(a, b));
                if !ready_at_start && gate.phase.active.is_some_and(|s| gate.walk.w > s) {
                    out.class("held back by a prefetch phase");
                    out.nontrivial = true;
                }
            }
            Ev::OpEnd { .. } => {
                let c = &calls[cur];
                cur += 1;
                if let OpRes::Read { got, .. } = c.res
                    && got > 0
                    && !gate.ready(c.start_pos, c.start_pos + got as u64)
                {
                    out.problem(format!("{} returned {got} bytes before the prefetch target of {} was reached", c.desc(), gate.phase.target));
                }
                if ready_at_start && !delays && c.t1 != c.t0 {
                    out.problem(format!("{} took {} ms although everything it needs was available", c.desc(), c.t1 - c.t0));
                }
                if ready_at_start {
                    out.class("served locally");
                }
            }
            Ev::Hang { .. } => {
                let c = &calls[cur];
                if !case.src.script.contains(&crate::source::Item::Silent) {
                    out.problem(format!("{} never returned", c.desc()));
                } else if let Some((a, b)) = c.needs(case)
                    && gate.ready(a, b)
                {
                    out.problem(format!("{} never returned although everything it needs was received", c.desc()));
                }
                out.class("blocked on a silent source");
                out.nontrivial = true;
            }
            _ => gate.apply(&r.log, k),
        }
    }
    out
}

// ---------------------------------------------------------------- C05

static C05: Check<SimCase> = check(
    "C05",
    "at least one reconnect, transient error or early end happened and at least 2 bytes were read",
    200_000,
    4_000_000,
    || {
        r#gen::case(Cfg {
            over: true,
            kinds: ALL_KINDS,
            errs: 2,
            stalls: 2,
            dead: 2,
            early_end: 1,
            rec_faults: true,
            known: (4, 1),
            ..Cfg::BASE
        })
    },
    c05,
);

fn c05(case: &SimCase) -> Outcome {
    let r = run_case(case);
    let mut out = Outcome::default();
    let calls = calls(&r.log);
    bytes_ok(&calls, &mut out);
    let early = has(&r.log, |e| matches!(e, Ev::ItemEnd { early: true, .. }));
    if !early {
        no_early_eof(case, &calls, &mut out);
        only_expected_errors(case, &calls, &mut out);
    } else {
        out.class("early end");
        for c in &calls {
            if !expected_error(case, c) && c.err() != Some(ErrorKind::UnexpectedEof) {
                out.problem(format!("{} failed: {:?}", c.desc(), c.res));
            }
        }
    }
    if has(&r.log, |e| matches!(e, Ev::Write { bad: true, .. })) {
        out.problem("bytes stored at a position differ from the source's bytes there");
    }
    liveness(&r, &mut out);
    let read: u64 = calls.iter().filter(|c| !c.is_seek()).map(|c| c.end_pos.saturating_sub(c.start_pos)).sum();
    let rec = has(&r.log, |e| matches!(e, Ev::Reconnect { .. }));
    if rec {
        out.class("reconnect");
    }
    if has(&r.log, |e| matches!(e, Ev::ReconnectDropped)) {
        out.class("reconnect timed out");
    }
    let err = has(&r.log, |e| matches!(e, Ev::ItemErr));
    if err {
        out.class("transient error");
    }
    out.nontrivial = (rec || err || early) && read >= 2;
    out
}

// ---------------------------------------------------------------- C06

static C06: Check<SimCase> = check(
    "C06",
    "the injected fault was hit, or (control) reconnect/transient errors happened without a failure",
    200_000,
    4_000_000,
    || {
        r#gen::case(Cfg {
            over: true,
            kinds: [4, 1, 2, 1, 2, 2],
            errs: 1,
            stalls: 1,
            dead: 1,
            rec_faults: true,
            seek_errs: true,
            store_faults: true,
            finish: true,
            max_ops: 12,
            ..Cfg::BASE
        })
    },
    c06,
);

fn c06(case: &SimCase) -> Outcome {
    let r = run_case(case);
    let mut out = Outcome::default();
    let calls = calls(&r.log);
    let log = &r.log;
    bytes_ok(&calls, &mut out);
    liveness(&r, &mut out);
    let fault = index_of(log, |e| matches!(e, Ev::WriteErr | Ev::WFlushErr | Ev::WSeekErr | Ev::SeekRangeDone { ok: false }));
    let fin = index_of(log, |e| matches!(e, Ev::Finish { .. }));
    let cancelled = has(log, |e| matches!(e, Ev::Finish { cancelled: true, .. }));
    let done = index_of(log, |e| matches!(e, Ev::FinishDone { .. }));
    let failed = done.is_some_and(|d| log[d].ev == Ev::FinishDone { ok: false }) && !cancelled;
    let dropped = index_of(log, |e| *e == Ev::SourceDropped).unwrap_or(usize::MAX);
    let gone = index_of(log, |e| matches!(e, Ev::StreamDropped | Ev::CancelRequested)).unwrap_or(usize::MAX);
    if cancelled && fin.is_some_and(|k| k < gone) {
        out.problem("the finish hook was told of a cancellation nobody requested");
    }
    if let Some(f) = fault {
        out.nontrivial = true;
        out.class("storage or seek fault");
        if !cancelled {
            match fin {
                Some(k) if matches!(log[k].ev, Ev::Finish { ok: true, .. }) => {
                    out.problem("the finish hook got success although the download failed");
                }
                Some(k) if k < f => out.problem("fault after the finish hook"),
                Some(_) => {
                    // nothing more is asked of the source after a fault
                    let later = log[f..].iter().any(|e| matches!(e.ev, Ev::Chunk { .. } | Ev::SeekRange { .. } | Ev::Reconnect { .. }));
                    if later {
                        out.problem("the download went on after a fatal fault");
                    }
                }
                None => out.problem("the finish hook did not run after a fatal fault"),
            }
        }
    }
    if failed {
        out.nontrivial = true;
        out.class("failed");
        let done = done.unwrap_or(0);
        let mut walk = Walk::default();
        let mut k = 0;
        for c in &calls {
            while k < c.from.max(done.min(c.to.unwrap_or(usize::MAX))) {
                walk.apply(&log[k].ev);
                k += 1;
            }
            let Some(to) = c.to else { continue };
            if let OpRes::Read { want, got: 0, .. } = c.res
                && want > 0
            {
                out.problem(format!("{} reported end of file of a failed download", c.desc()));
            }
            if c.from > dropped && c.err().is_none() {
                out.problem(format!("{} succeeded after the download failed: {:?}", c.desc(), c.res));
            }
            if c.from < done && to > done {
                out.class("call in progress at the failure");
                let avail = c.needs(case).map_or(c.is_seek(), |(a, b)| walk.all(a, b));
                if !avail && c.err().is_none() && c.want() != Some(0) {
                    out.problem(format!("{} was waiting when the download failed but returned {:?}", c.desc(), c.res));
                }
            }
        }
    } else if done.is_some() || !cancelled {
        for c in &calls {
            if !expected_error(case, c) {
                out.problem(format!("{} failed although the download did not: {:?}", c.desc(), c.res));
            }
        }
        if has(log, |e| matches!(e, Ev::ItemErr | Ev::ReconnectDropped | Ev::ReconnectDone { ok: false })) {
            out.class("recoverable faults only");
            out.nontrivial = true;
        }
    }
    out
}

// ---------------------------------------------------------------- C07

static C07: Check<SimCase> = check(
    "C07",
    "the download was cancelled or dropped before it had completed",
    200_000,
    4_000_000,
    || {
        r#gen::case(Cfg {
            over: true,
            kinds: ALL_KINDS,
            errs: 1,
            runs: 1,
            stalls: 1,
            dead: 1,
            silent: 2,
            rec_faults: true,
            seek_delays: true,
            seek_errs: true,
            store_faults: true,
            finish: true,
            cancels: 3,
            no_cancel_on_drop: true,
            handles: false,
            finale: false,
            sleeps: 3,
            ..Cfg::BASE
        })
    },
    c07,
);

fn c07(case: &SimCase) -> Outcome {
    let r = run_case(case);
    let mut out = Outcome::default();
    let calls = calls(&r.log);
    let log = &r.log;
    no_panics(&r, &mut out);
    bytes_ok(&calls, &mut out);
    let requested = index_of(log, |e| *e == Ev::CancelRequested);
    let dropped = index_of(log, |e| *e == Ev::StreamDropped);
    let cancel = match (requested, dropped.filter(|_| case.cancel_on_drop)) {
        (Some(a), Some(b)) => Some(a.min(b)),
        (a, b) => a.or(b),
    };
    let n_fin = count(log, |e| matches!(e, Ev::Finish { .. }));
    let fin = index_of(log, |e| matches!(e, Ev::Finish { .. }));
    if n_fin > 1 {
        out.problem(format!("the finish hook ran {n_fin} times"));
    }
    let silent = case.src.script.contains(&crate::source::Item::Silent);
    let bounded = case.store.kind.bounded(case.src.known_len).is_some();
    let mut was_cancelled = false;
    let fault = index_of(log, |e| matches!(e, Ev::WriteErr | Ev::WFlushErr | Ev::WSeekErr | Ev::SeekRangeDone { ok: false }));
    let fault = fault.filter(|k| fin.is_none_or(|f| *k < f));
    if let Some(f) = fin {
        let Ev::Finish { ok, kind, cancelled } = log[f].ev else { unreachable!() };
        was_cancelled = cancelled;
        match cancel.filter(|c| *c < f) {
            None => {
                if cancelled {
                    out.problem("the finish hook was told of a cancellation nobody requested");
                } else if ok != fault.is_none() {
                    out.problem(format!("the finish hook got {} although {}", if ok { "success" } else { "an error" }, if ok { "the download failed" } else { "nothing failed" }));
                }
            }
            Some(c) => {
                if log[f].t != log[c].t {
                    out.problem(format!("cancelled at {} ms, stopped at {} ms", log[c].t, log[f].t));
                }
                // chunks that were at least partially stored
                let chunks = log[c..f]
                    .iter()
                    .fold((0, false), |(n, fresh), e| match e.ev {
                        Ev::Chunk { len, .. } if len > 0 => (n, true),
                        Ev::Write { len, .. } if len > 0 && fresh => (n + 1, false),
                        _ => (n, fresh),
                    })
                    .0;
                let req = log[c..f].iter().filter(|e| matches!(e.ev, Ev::SeekRange { .. } | Ev::Reconnect { .. })).count();
                // every call of the reader may have been served before the task got to look
                let served = calls.iter().filter(|k| k.from > c).count();
                // before the task gets to look, the requests of a few calls and the ones for the gaps
                // after them may be handled
                if chunks > 1 || req > 4 + 2 * served {
                    out.problem(format!("{chunks} chunks and {req} requests were processed after the cancellation"));
                }
                let idle = log[c..f].iter().filter(|e| matches!(e.ev, Ev::ItemErr | Ev::ItemEnd { .. } | Ev::Chunk { len: 0, .. })).count();
                if idle > 200 {
                    out.problem(format!("{idle} errors, empty chunks or ends of the source were processed after the cancellation"));
                }
                if cancelled && (ok || kind != Some(ErrorKind::Interrupted)) {
                    out.problem("a cancelled download has to be reported as interrupted");
                }
                if !cancelled && ok != fault.is_none() {
                    out.problem("a cancelled download was reported as failed, or the other way around");
                }
                out.nontrivial = cancelled;
            }
        }
        if log[f + 1..].iter().any(|e| matches!(e.ev, Ev::Chunk { .. } | Ev::SeekRange { .. } | Ev::Reconnect { .. } | Ev::Write { .. })) {
            out.problem("the download went on after the finish hook");
        }
    }
    let must_end = cancel.is_some() || (!silent && (!bounded || case.cancel_on_drop));
    if must_end && !has(log, |e| matches!(e, Ev::Livelock)) {
        if n_fin == 0 {
            out.problem("the finish hook never ran");
        } else if !r.released {
            out.problem("source and storage writer were not released");
        }
    }
    let gone = index_of(log, |e| *e == Ev::SourceDropped).unwrap_or(usize::MAX);
    if was_cancelled {
        for c in &calls {
            if c.from > gone && c.err().is_none() {
                out.problem(format!("{} succeeded after the cancellation: {:?}", c.desc(), c.res));
            }
            if let OpRes::Read { want, got: 0, .. } = c.res
                && want > 0
            {
                out.problem(format!("{} reported end of file of a cancelled download", c.desc()));
            }
        }
        // a call in progress may only succeed with what is there
        if let Some(f) = index_of(log, |e| matches!(e, Ev::FinishDone { .. })) {
            let mut walk = Walk::default();
            let mut k = 0;
            for c in &calls {
                let Some(to) = c.to.filter(|to| c.from < f && *to > f) else { continue };
                while k < to {
                    walk.apply(&log[k].ev);
                    k += 1;
                }
                let avail = c.needs(case).map_or(c.is_seek(), |(a, b)| walk.all(a, b));
                // without any space left, the end of the data is as far as a seek can get
                let full = bounded && c.is_seek();
                if !avail && !full && c.err().is_none() && c.want() != Some(0) {
                    out.problem(format!("{} was waiting when the download was cancelled but returned {:?}", c.desc(), c.res));
                }
            }
        }
        let c = cancel.unwrap_or(0);
        let state = log[..c].iter().rev().find_map(|e| match e.ev {
            Ev::SeekRange { .. } => Some("while the source was seeking"),
            Ev::Reconnect { .. } => Some("while reconnecting"),
            Ev::StallBegin => Some("while stalled"),
            Ev::Write { len: 0, .. } => Some("while the storage was full"),
            Ev::Chunk { .. } => Some("between or inside chunks"),
            _ => None,
        });
        out.class(state.unwrap_or("at the start"));
        if matches!(case.cancel_cb, Some(n) if count(&log[..c], |e| matches!(e, Ev::Progress { .. })) == usize::from(n) + 1) {
            out.class("from the progress callback");
        }
    } else {
        // nothing (more) was cancelled: everything is served
        if case.src.finish_fail || fault.is_some() {
            // failed
        } else {
            only_expected_errors(case, &calls, &mut out);
            no_early_eof(case, &calls, &mut out);
        }
        if let (Some(f), Some(c)) = (fin, cancel)
            && c > f
        {
            out.class("cancelled after completion");
        }
    }
    if cancel.is_none() && must_end && !bounded && fin.is_some() && fault.is_none() {
        out.class("downloaded to the end after the drop");
        out.nontrivial = true;
        if !has(log, |e| matches!(e, Ev::Progress { phase: StreamPhase::Complete, .. })) {
            out.problem("an undisturbed download did not complete");
        }
        if case.src.known_len && case.src.seekable {
            complete_content(case, &r, &mut out);
        }
    }
    if let Some(c) = hung_call(&r) {
        if !(silent && cancel.is_none_or(|k| k > c.from && has(&log[c.from..k], |e| matches!(e, Ev::Hang { .. })))) {
            out.problem(format!("{} never returned", c.desc()));
        }
    }
    out
}

fn complete_content(case: &SimCase, r: &RunResult, out: &mut Outcome) {
    if case.store.kind.bounded(case.src.known_len).is_some() {
        return;
    }
    for p in 0..case.len() {
        match r.shadow.get(p as usize).copied().flatten() {
            Some(b) if b == crate::trace::content(case.salt, p) => {}
            Some(_) => return out.problem(format!("wrong byte stored at {p}")),
            None => return out.problem(format!("byte {p} of {} was never stored", case.len())),
        }
    }
}

// ---------------------------------------------------------------- C08

static C08: Check<SimCase> = check(
    "C08",
    "at least one handle was waited for and the download took at least one virtual millisecond or ended abnormally",
    200_000,
    3_000_000,
    || {
        r#gen::case(Cfg {
            kinds: ALL_KINDS,
            stalls: 1,
            dead: 1,
            silent: 1,
            seek_errs: true,
            store_faults: true,
            finish: true,
            cancels: 2,
            no_cancel_on_drop: true,
            handles: true,
            finale: false,
            sleeps: 2,
            max_ops: 7,
            ..Cfg::BASE
        })
    },
    c08,
);

fn c08(case: &SimCase) -> Outcome {
    let r = run_case(case);
    let mut out = Outcome::default();
    let log = &r.log;
    no_panics(&r, &mut out);
    let fin_done = index_of(log, |e| matches!(e, Ev::FinishDone { .. }));
    let src = index_of(log, |e| *e == Ev::SourceDropped);
    let wr = index_of(log, |e| *e == Ev::WriterDropped);
    let done = match (fin_done, src, wr) {
        (Some(a), Some(b), Some(c)) => Some(a.max(b).max(c)),
        _ => None,
    };
    for (k, rec) in log.iter().enumerate() {
        let Ev::HandleWait { i } = rec.ev else { continue };
        let resolved = log.iter().enumerate().find(|(_, e)| e.ev == Ev::Handle { i });
        match (resolved, done) {
            (Some((h, _)), None) => {
                let _ = h;
                out.problem("a handle resolved although the download task has not finished");
            }
            (Some((h, _)), Some(d)) if h < d => {
                out.problem("a handle resolved before the download task had finished");
            }
            (Some((_, e)), Some(d)) => {
                let at = rec.t.max(log[d].t);
                if e.t != at {
                    out.problem(format!("a handle resolved at {} ms instead of {at} ms", e.t));
                }
                out.class(if k > d { "waited after the end" } else { "waited before the end" });
                if log[..d].iter().any(|e| e.ev == Ev::StreamDropped) {
                    out.class("task outlived the stream");
                }
                out.nontrivial |= log[d].t > 0 || matches!(fin_done.map(|f| &log[f].ev), Some(Ev::FinishDone { ok: false }));
            }
            (None, Some(_)) => out.problem("a handle never resolved although the download task has finished"),
            (None, None) => {
                out.class("task still running at the end");
            }
        }
    }
    out
}

// ---------------------------------------------------------------- C09

static C09: Check<Mixed> = mixed_check(
    "C09",
    "the source was asked to seek at least once, or the source cannot seek and the program did",
    200_000,
    4_000_000,
    || crate::huge::mixed({
        use proptest::prelude::*;
        r#gen::case(Cfg { kinds: [5, 1, 0, 0, 1, 2], max_ops: 12, early_end: 1, stalls: 2, silent: 1, ..Cfg::BASE })
            .prop_map(|mut c| {
                // no reconnects before the source falls silent for good
                for i in &mut c.src.script {
                    if let crate::source::Item::Stall(ms) = i {
                        *ms = (*ms % (c.retry_ms / 2).max(2)).max(1);
                    }
                }
                c.src.script.dedup_by(|b, a| {
                    matches!((a, b), (crate::source::Item::Stall(_), crate::source::Item::Stall(_)))
                });
                if c.src.seekable {
                    // the missing rest would be fetched
                    c.src.script.retain(|i| *i != crate::source::Item::End);
                }
                c
            })
            .boxed()
    }, HUGE_SHARE),
    |c| match c {
        Mixed::Sim(c) => c09(c),
        Mixed::Huge(c) => crate::huge::run("C09", c),
    },
);

fn c09(case: &SimCase) -> Outcome {
    let r = run_case(case);
    let mut out = Outcome::default();
    let log = &r.log;
    let calls = calls(log);
    no_panics(&r, &mut out);
    bytes_ok(&calls, &mut out);
    let len = case.len();
    let mut walk = Walk::default();
    let mut delivered = vec![false; case.src.len as usize];
    let mut started = 0;
    let any_seek = calls.iter().any(|c| c.is_seek());
    for (k, rec) in log.iter().enumerate() {
        match &rec.ev {
            Ev::OpStart { .. } => started += 1,
            Ev::Chunk { pos, len: n } => {
                for p in *pos..pos + n {
                    if std::mem::replace(&mut delivered[p as usize], true) && case.src.known_len && case.src.seekable {
                        out.problem(format!("byte {p} was fetched twice"));
                    }
                }
            }
            Ev::SeekRange { start, end } => {
                out.nontrivial = true;
                let (s, e) = (*start, *end);
                if !case.src.seekable {
                    out.problem("seek_range was called on a source that cannot seek");
                    continue;
                }
                if !any_seek {
                    out.problem(format!("sequential reading asked the source for {s}..{e:?}"));
                }
                if case.src.known_len {
                    match e {
                        None => out.problem(format!("range {s}.. without an end although the length is known")),
                        Some(e) if s == len && e == len => {}
                        Some(e) => {
                            if s >= e || e > len {
                                out.problem(format!("range {s}..{e} is empty or outside of the content of {len}"));
                            } else if walk.has(s) {
                                out.problem(format!("range {s}..{e} starts at a byte that is already stored"));
                            } else if (s..e).any(|p| walk.has(p)) {
                                out.problem(format!("range {s}..{e} contains bytes that are already stored"));
                            } else if e != len && !walk.has(e) {
                                out.problem(format!("range {s}..{e} ends before the next stored byte"));
                            }
                        }
                    }
                } else if e.is_some() {
                    out.problem(format!("range end {e:?} although the length is unknown"));
                }
                if is_gap_fill(log, k) {
                    out.class("gap filled");
                    if !case.src.known_len {
                        out.problem("gap request without a known length");
                    }
                    // what follows comes first, then what was skipped
                    let next = walk.gap(walk.w, len).or_else(|| walk.gap(0, len));
                    if next != Some(s) {
                        out.problem(format!("range {s}..{e:?} was fetched at {}, the next missing byte is {next:?}", walk.w));
                    }
                } else {
                    out.class("user seek");
                    let cand = [
                        calls[..started].last(),
                        calls[..started].iter().rev().find(|c| c.is_seek()),
                    ];
                    let fits = cand.into_iter().flatten().any(|c| {
                        let first = |from: u64| {
                            if case.src.known_len { walk.gap(from, len).unwrap_or(len) } else { from }
                        };
                        match c.kind {
                            CallKind::Seek(_) => c.target(case).is_some_and(|t| s == first(t)),
                            CallKind::Read(n) => {
                                let e = c.start_pos + n as u64;
                                let e = if case.src.known_len { e.min(len) } else { e };
                                s != walk.w && walk.gap(c.start_pos, e) == Some(s)
                            }
                        }
                    });
                    // a seek to the end may be over before the task gets to handle its request
                    let to_end = case.src.known_len
                        && s == len
                        && calls[..started].iter().any(|c| c.is_seek() && c.target(case) == Some(len));
                    if !fits && !to_end {
                        out.problem(format!(
                            "range {s}..{e:?} does not belong to {}",
                            calls[..started].last().map_or("any call".into(), Call::desc)
                        ));
                    }
                }
            }
            e => walk.apply(e),
        }
    }
    prompt_jumps(case, &r, &calls, &mut out);
    // the gaps left behind are fetched once the task has come to its end
    let completed = has(log, |e| matches!(e, Ev::Finish { ok: true, .. }));
    if completed && case.src.known_len && case.src.seekable {
        if let Some(p) = delivered.iter().position(|d| !d) {
            out.problem(format!("byte {p} was never fetched although the download completed"));
        }
    }
    if !case.src.seekable && any_seek {
        out.nontrivial = true;
        out.class("seeks on an unseekable source");
    }
    out
}

/// A call that needs a byte which is neither stored nor the next one makes the source jump at once.
fn prompt_jumps(case: &SimCase, r: &RunResult, calls: &[Call], out: &mut Outcome) {
    if !case.src.seekable || case.sched.preempt.iter().any(|p| p.1 > 0) {
        return;
    }
    let log = &r.log;
    let mut walk = Walk::default();
    let mut k = 0;
    let mut busy = false;
    let step = |ev: &Ev, busy: &mut bool| match ev {
        Ev::SeekRange { .. } | Ev::Reconnect { .. } | Ev::Finish { .. } => *busy = true,
        Ev::SeekRangeDone { .. } | Ev::ReconnectDone { .. } | Ev::ReconnectDropped => *busy = false,
        _ => {}
    };
    for c in calls {
        while k < c.from {
            walk.apply(&log[k].ev);
            step(&log[k].ev, &mut busy);
            k += 1;
        }
        let Some((a, b)) = c.needs(case) else { continue };
        let Some(g) = walk.gap(a, b) else { continue };
        // the source may be about to deliver it
        if walk.all(walk.w, g) && walk.w <= g || busy {
            continue;
        }
        out.class("call that needs a jump");
        for e in &log[c.from + 1..] {
            if matches!(e.ev, Ev::SeekRange { .. } | Ev::WSeek { .. } | Ev::Reconnect { .. } | Ev::Finish { .. } | Ev::OpEnd { .. }) {
                break;
            }
            if e.t > c.t0 || matches!(e.ev, Ev::Hang { .. }) {
                out.problem(format!("{} needs byte {g}, but the source wasn't asked for it by {} ms", c.desc(), e.t));
                break;
            }
        }
    }
}

// ---------------------------------------------------------------- C10

static C10: Check<Mixed> = mixed_check(
    "C10",
    "the download completed, and seeks made the source jump or calls were made after the completion",
    200_000,
    4_000_000,
    || crate::huge::mixed({
        use proptest::prelude::*;
        let tail = prop::collection::vec(
            prop_oneof![
                3 => (0..200u32).prop_map(crate::sim::Op::Read),
                2 => any::<u32>().prop_map(crate::sim::Op::Seek),
                1 => any::<u32>().prop_map(crate::sim::Op::SeekEnd),
                1 => (1..60u32).prop_map(crate::sim::Op::ReadAll),
            ],
            0..6,
        );
        (
            r#gen::case(Cfg {
                kinds: [4, 2, 1, 0, 2, 2],
                errs: 1,
                stalls: 1,
                dead: 1,
                rec_faults: true,
                finish: true,
                finale: false,
                no_cancel_on_drop: true,
                ..Cfg::BASE
            }),
            tail,
        )
            .prop_map(|(mut c, mut tail)| {
                c.src.finish_fail = false;
                c.ops.push(crate::sim::Op::Sleep(u16::MAX));
                let cap = c.store.kind.bounded(c.src.known_len).unwrap_or(u64::from(c.src.len));
                for op in &mut tail {
                    r#gen::not_too_small(op, c.src.len, cap);
                }
                c.ops.extend(tail);
                c
            })
            .boxed()
    }, HUGE_SHARE),
    |c| match c {
        Mixed::Sim(c) => c10(c),
        Mixed::Huge(c) => crate::huge::run("C10", c),
    },
);

fn c10(case: &SimCase) -> Outcome {
    let r = run_case(case);
    let mut out = Outcome::default();
    let log = &r.log;
    let calls = calls(log);
    bytes_ok(&calls, &mut out);
    liveness(&r, &mut out);
    let bounded = case.store.kind.bounded(case.src.known_len).is_some();
    let complete = index_of(log, |e| matches!(e, Ev::Progress { phase: StreamPhase::Complete, .. }));
    let done = index_of(log, |e| matches!(e, Ev::FinishDone { ok: true }));
    let Some(done) = done else {
        return out;
    };
    if complete.is_none_or(|c| c > done) {
        out.problem("the finish hook got success before completion was reported");
        return out;
    }
    let mut walk = Walk::default();
    for rec in &log[..complete.unwrap_or(0)] {
        walk.apply(&rec.ev);
    }
    if case.src.known_len && case.src.seekable && !bounded {
        if let Some(p) = walk.gap(0, case.len()) {
            out.problem(format!("completion was reported before byte {p} of {} was stored", case.len()));
        }
        complete_content(case, &r, &mut out);
    }
    // everything that was delivered has been stored
    for rec in log {
        if let Ev::Chunk { pos, len } = rec.ev
            && let Some(p) = walk.gap(pos, pos + len)
            && !(bounded && jumps(&r) > 0)
        {
            out.problem(format!("byte {p} was received but never stored"));
        }
    }
    if let Some(e) = log[done..].iter().find(|e| {
        matches!(
            e.ev,
            Ev::Chunk { .. } | Ev::SeekRange { .. } | Ev::Reconnect { .. } | Ev::ItemErr | Ev::ItemEnd { .. } | Ev::Write { .. }
        )
    }) {
        out.problem(format!("the source was used after completion: {:?}", e.ev));
    }
    let gone = index_of(log, |e| *e == Ev::WriterDropped).unwrap_or(usize::MAX);
    let delays = case.sched.preempt.iter().any(|p| p.1 > 0);
    for c in calls.iter().filter(|c| c.from > gone) {
        out.class("call after completion");
        out.nontrivial = true;
        if !delays && c.t0 != c.t1 {
            out.problem(format!("{} took {} ms after completion", c.desc(), c.t1 - c.t0));
        }
        let skipped = c.err() == Some(ErrorKind::UnexpectedEof) && !case.src.known_len && case.src.seekable;
        if bounded {
            continue;
        }
        if c.err().is_some() && !skipped && expected_error(case, c) && c.is_seek() && c.target(case).is_none() {
            continue;
        }
        if c.err().is_some() && !skipped {
            out.problem(format!("{} failed after completion: {:?}", c.desc(), c.res));
        }
        match (c.kind, &c.res) {
            (CallKind::Read(want), OpRes::Read { got, .. }) if !matches!(case.store.kind, crate::store::Kind::Custom { .. } | crate::store::Kind::Buffered { .. } | crate::store::Kind::Temp | crate::store::Kind::Adaptive(_)) => {
                let avail = case.len().saturating_sub(c.start_pos).min(want as u64);
                if case.src.known_len && *got as u64 != avail {
                    out.problem(format!("{} returned {got} bytes after completion", c.desc()));
                }
            }
            (CallKind::Read(want), OpRes::Read { got: 0, .. }) if want > 0 && c.start_pos < case.len() && (case.src.known_len || !case.src.seekable) => {
                out.problem(format!("{} reported end of file after completion", c.desc()));
            }
            _ => {}
        }
    }
    if jumps(&r) > 0 {
        out.class("source seek");
        out.nontrivial = true;
    }
    out
}

// ---------------------------------------------------------------- C12

static C12: Check<Mixed> = mixed_check(
    "C12",
    "at least three progress reports were made",
    200_000,
    4_000_000,
    || crate::huge::mixed({
        r#gen::case(Cfg {
            over: true,
            kinds: ALL_KINDS,
            errs: 1,
            stalls: 1,
            dead: 1,
            early_end: 1,
            rec_faults: true,
            store_faults: true,
            seek_errs: false,
            finish: true,
            cancels: 1,
            no_cancel_on_drop: true,
            ..Cfg::BASE
        })
    }, HUGE_SHARE),
    |c| match c {
        Mixed::Sim(c) => c12(c),
        Mixed::Huge(c) => crate::huge::run("C12", c),
    },
);

fn c12(case: &SimCase) -> Outcome {
    let r = run_case(case);
    let mut out = Outcome::default();
    let log = &r.log;
    no_panics(&r, &mut out);
    let prefetch = case.prefetch_target();
    let mut walk = Walk::default();
    let mut phase = Phase::new(prefetch);
    // start of the prefetch phase that was active when the current chunk began
    let mut chunk_phase: Option<u64> = None;
    let mut since = 0u64;
    let mut total = 0u64;
    let mut reports = 0;
    let mut completes = 0;
    let mut cut = false;
    for (k, rec) in log.iter().enumerate() {
        match &rec.ev {
            Ev::Write { len, pos, .. } => {
                if since == 0 {
                    chunk_phase = phase.active;
                }
                walk.apply(&rec.ev);
                since += *len as u64;
                let _ = pos;
                if *len == 0 && phase.active.is_some() {
                    // the storage is full: the phase ends with a report of its own
                    phase.active = None;
                    cut = true;
                }
                if *len > 0 && cut {
                    cut = false;
                }
            }
            Ev::SeekRange { start, .. } => {
                if !is_gap_fill(log, k) {
                    phase.active = if phase.active.is_some() { None } else { Some(*start) };
                }
                since = 0;
            }
            Ev::ItemEnd { .. } => phase.active = None,
            Ev::Progress { pos, chunk: (a, b), phase: ph } => {
                reports += 1;
                if completes > 0 {
                    out.problem("a progress report followed the completion report");
                }
                if *pos != walk.w {
                    out.problem(format!("reported position {pos}, the last byte written is before {}", walk.w));
                }
                if let StreamPhase::Complete = ph {
                    if (*a, *b) == (0, 0) {
                        if *pos > 0 && walk.has(pos - 1) && case.store.kind.bounded(case.src.known_len).is_none() {
                            out.problem("the completion report has no current chunk");
                        }
                    } else if !(a <= pos && pos <= b && walk.all(*a, *b)) {
                        out.problem(format!("completion reports chunk {a}..{b} at {pos}, which is not what is stored there"));
                    }
                } else if ph_stored_nothing(ph) && a == b && a == pos {
                    // the storage had no room for any of it
                } else if !(a < b && a < pos && pos <= b && walk.all(*a, *b)) {
                    out.problem(format!("reported chunk {a}..{b} at position {pos} is not a stored range ending there"));
                }
                match ph {
                    StreamPhase::Prefetching { target, chunk_size, .. } => {
                        let size = *chunk_size as u64;
                        if *target != prefetch {
                            out.problem(format!("prefetch target {target} reported, {prefetch} configured"));
                        }
                        if size != since {
                            out.problem(format!("chunk size {size} reported, {since} bytes were written"));
                        }
                        match chunk_phase {
                            None => out.problem("prefetching was reported outside of a prefetch phase"),
                            Some(s) => {
                                let before = *pos - size;
                                if before > s && before >= s.saturating_add(prefetch) {
                                    out.problem("prefetching was reported after the prefetch target had been reached");
                                }
                                if *a != s || b != pos {
                                    out.problem(format!("prefetch from {s} to {pos} reported as chunk {a}..{b}"));
                                }
                                if walk.w >= s.saturating_add(prefetch) {
                                    phase.active = None;
                                }
                            }
                        }
                        out.class("prefetching");
                        total += size;
                        since = 0;
                    }
                    StreamPhase::Downloading { chunk_size, .. } => {
                        let size = *chunk_size as u64;
                        if size != since {
                            out.problem(format!("chunk size {size} reported, {since} bytes were written"));
                        }
                        if let Some(s) = chunk_phase {
                            out.problem(format!("downloading was reported during the prefetch phase from {s}"));
                        }
                        out.class("downloading");
                        total += size;
                        since = 0;
                    }
                    StreamPhase::Complete => {
                        completes += 1;
                        out.class("complete");
                    }
                    _ => {}
                }
            }
            e => walk.apply(e),
        }
    }
    let ok = has(log, |e| matches!(e, Ev::Finish { ok: true, .. }));
    let fin = has(log, |e| matches!(e, Ev::Finish { .. }));
    if ok && completes != 1 {
        out.problem(format!("a successful download reported completion {completes} times"));
    }
    if fin && !ok && completes != 0 {
        out.problem("a failed or cancelled download reported completion");
    }
    if ok {
        let written: u64 = log.iter().map(|e| if let Ev::Write { len, .. } = e.ev { len as u64 } else { 0 }).sum();
        if written != total {
            out.problem(format!("{total} bytes reported, {written} bytes stored"));
        }
    }
    out.nontrivial = reports >= 3;
    out
}

fn ph_stored_nothing(phase: &StreamPhase) -> bool {
    matches!(phase, StreamPhase::Prefetching { chunk_size: 0, .. } | StreamPhase::Downloading { chunk_size: 0, .. })
}

// ---------------------------------------------------------------- C13

static C13: Check<SimCase> = check(
    "C13",
    "the source was silent for at least the retry timeout once, or for a time within 2 ms of it",
    200_000,
    4_000_000,
    || {
        r#gen::case(Cfg {
            kinds: [4, 1, 3, 1, 1, 2],
            errs: 1,
            stalls: 6,
            dead: 2,
            silent: 1,
            rec_faults: true,
            seek_delays: true,
            sleeps: 3,
            max_ops: 8,
            no_cancel_on_drop: true,
            cancels: 1,
            ..Cfg::BASE
        })
    },
    c13,
);

fn c13(case: &SimCase) -> Outcome {
    let r = run_case(case);
    let mut out = Outcome::default();
    let log = &r.log;
    no_panics(&r, &mut out);
    let retry = u64::from(case.retry_ms);
    // time since which the task has been waiting for the source
    let mut waiting: Option<u64> = Some(0);
    let mut next = 0u64;
    let mut walk = Walk::default();
    let mut rec_start = None;
    let mut cb_due = false;
    let near = case.src.script.iter().any(|i| matches!(i, crate::source::Item::Stall(ms) if u64::from(*ms).abs_diff(retry) <= 2));
    for (k, rec) in log.iter().enumerate() {
        let t = rec.t;
        let source_event = matches!(
            rec.ev,
            Ev::Chunk { .. } | Ev::ItemErr | Ev::ItemEnd { .. } | Ev::SeekRange { .. } | Ev::Reconnect { .. } | Ev::Finish { .. }
        );
        if source_event && cb_due {
            out.problem("the reconnect callback was not called after a successful reconnect");
            cb_due = false;
        }
        if let Some(w) = waiting
            && t > w + retry
            && !matches!(rec.ev, Ev::Handle { .. } | Ev::HandleWait { .. })
        {
            out.problem(format!("the source has been silent since {w} ms, no reconnect by {t} ms (timeout {retry} ms)"));
            waiting = None;
        }
        match &rec.ev {
            Ev::Chunk { pos, len } => {
                next = pos + len;
                waiting = Some(t);
            }
            Ev::Write { len, .. } => {
                walk.apply(&rec.ev);
                waiting = (*len > 0).then_some(t);
            }
            Ev::ItemErr => waiting = Some(t),
            Ev::ItemEnd { .. } => waiting = Some(t),
            Ev::SeekRange { start, .. } => {
                next = *start;
                waiting = None;
            }
            Ev::SeekRangeDone { .. } => waiting = Some(t),
            Ev::Reconnect { pos } => {
                out.nontrivial = true;
                out.class("reconnect");
                match waiting {
                    Some(w) if t == w + retry => {}
                    Some(w) => out.problem(format!("reconnect at {t} ms although the source was last active at {w} ms (timeout {retry} ms)")),
                    None => out.problem("reconnect while not waiting for the source"),
                }
                if *pos != walk.w {
                    out.problem(format!("reconnect at {pos}, but the next byte to store is {}", walk.w));
                }
                if *pos != next {
                    out.problem(format!("reconnect at {pos}, but the next byte of the source is {next}"));
                }
                waiting = None;
                rec_start = Some(t);
            }
            Ev::ReconnectDone { ok } => {
                if rec_start.is_some_and(|s| t > s + retry) {
                    out.problem("a reconnect attempt was not abandoned after the timeout");
                }
                cb_due = *ok;
                if !ok {
                    out.class("reconnect failed");
                }
                waiting = Some(t);
            }
            Ev::ReconnectDropped => {
                out.class("reconnect abandoned");
                let cancelled = log[k..].iter().any(|e| matches!(e.ev, Ev::Finish { cancelled: true, .. }))
                    && log[..k].iter().any(|e| matches!(e.ev, Ev::CancelRequested | Ev::StreamDropped));
                let at_end = log[k..].iter().all(|e| !matches!(e.ev, Ev::Reconnect { .. } | Ev::Chunk { .. } | Ev::Finish { .. }));
                if !cancelled && !at_end && rec_start.is_none_or(|s| t != s + retry) {
                    out.problem("a reconnect attempt was abandoned at the wrong time");
                }
                waiting = Some(t);
            }
            Ev::ReconnectCb => {
                if !cb_due {
                    out.problem("the reconnect callback was called without a successful reconnect");
                }
                cb_due = false;
            }
            Ev::Finish { .. } => waiting = None,
            Ev::SourceDropped => {
                waiting = None;
            }
            e => walk.apply(e),
        }
        if matches!(rec.ev, Ev::Finish { .. } | Ev::SourceDropped) {
            break;
        }
    }
    out.nontrivial |= near;
    if near {
        out.class("stall close to the timeout");
    }
    out
}

// ---------------------------------------------------------------- C15

static C15: Check<SimCase> = check(
    "C15",
    "the content is larger than the capacity and at least 2 bytes were read",
    200_000,
    4_000_000,
    || {
        r#gen::case(Cfg {
            over: true,
            kinds: [0, 0, 5, 2, 3, 0],
            known: (2, 1),
            over_reads: true,
            stalls: 1,
            ..Cfg::BASE
        })
    },
    c15,
);

fn c15(case: &SimCase) -> Outcome {
    let r = run_case(case);
    let mut out = Outcome::default();
    let log = &r.log;
    let calls = calls(log);
    let Some(cap) = case.store.kind.bounded(case.src.known_len) else {
        // adaptive storage that is large enough
        return out;
    };
    // space that is really allocated
    let phys = if case.src.known_len { cap.min(case.len()) } else { cap };
    bytes_ok(&calls, &mut out);
    no_early_eof(case, &calls, &mut out);
    liveness(&r, &mut out);
    // nothing ever has to be evicted
    let whole = case.src.known_len && cap >= case.len();
    let mut walk = Walk::default();
    // the reader is at a retained position
    let mut inside = true;
    // the position of the reader or the writer is changing
    let mut moving = false;
    let mut writing = false;
    // the reader moved during the current write
    let mut overlap = false;
    let mut k = 0;
    let mut cur = 0;
    let sequential = !calls.iter().any(|c| c.is_seek()) && case.sched.preempt.iter().all(|p| p.1 == 0);
    // the download is waiting for space
    let mut full: Option<u64> = None;
    while k < log.len() {
        let ev = &log[k].ev;
        if let Some(since) = full
            && sequential
            && log[k].t > since
            && walk.w - walk.r < phys
        {
            out.problem(format!("the download hasn't been continued since {since} ms although the reader has made room"));
        }
        match ev {
            Ev::Write { len: 0, .. } => full = Some(log[k].t),
            Ev::SRead { .. } => full = full.map(|_| log[k].t),
            Ev::Write { .. } | Ev::Finish { .. } | Ev::StreamDropped | Ev::CancelRequested => full = None,
            _ => {}
        }
        match ev {
            Ev::OpStart { .. } => {}
            Ev::OpEnd { .. } => {
                let c = &calls[cur];
                cur += 1;
                if c.want().is_some_and(|w| w as u64 > cap) {
                    out.class("oversized read");
                    if c.err() != Some(ErrorKind::InvalidInput) {
                        out.problem(format!("{} exceeds the capacity of {cap} but returned {:?}", c.desc(), c.res));
                    }
                } else if matches!(c.err(), Some(ErrorKind::InvalidInput | ErrorKind::UnexpectedEof))
                    && !c.is_seek()
                    && (inside || whole)
                {
                    out.problem(format!("{} was rejected although the position is retained (capacity {cap}): {:?}", c.desc(), c.res));
                }
                if c.is_seek()
                    && let Some(t) = c.target(case)
                {
                    let far = t > c.start_pos.saturating_add(cap);
                    if far && c.err() != Some(ErrorKind::InvalidInput) {
                        out.problem(format!("{} is further than {cap} ahead but returned {:?}", c.desc(), c.res));
                    }
                    if !far && c.err().is_some() {
                        out.problem(format!("{} failed: {:?}", c.desc(), c.res));
                    }
                    if !far && !matches!(c.res, OpRes::Seek { pos } if pos == t) && c.err().is_none() {
                        out.problem(format!("{} has to end at {t}: {:?}", c.desc(), c.res));
                    }
                    if far {
                        out.class("seek too far");
                    }
                }
                if !expected_error(case, c) {
                    out.problem(format!("{} failed: {:?}", c.desc(), c.res));
                }
                if c.err() == Some(ErrorKind::InvalidInput) && !inside && !c.is_seek() {
                    out.class("evicted position");
                }
            }
            Ev::WBegin => (writing, overlap) = (true, moving),
            Ev::Write { asked, len, .. } => {
                writing = false;
                let oldest = walk.window_start.max(walk.w.saturating_sub(phys));
                let valid_reader = walk.r >= oldest && walk.r <= walk.w;
                walk.apply(ev);
                if *len as u64 > phys {
                    out.problem(format!("a write of {len} bytes fits into a capacity of {phys}"));
                }
                if valid_reader && !overlap && *len > 0 && walk.w - walk.r > phys {
                    out.problem(format!(
                        "the download is {} bytes ahead of the reader, capacity {phys}",
                        walk.w - walk.r
                    ));
                }
                let _ = asked;
                if *len == 0 {
                    out.class("storage full");
                }
            }
            Ev::SBegin => (moving, overlap) = (true, true),
            Ev::SFail => moving = false,
            Ev::SRead { .. } => {
                moving = false;
                walk.apply(ev);
            }
            Ev::SSeek { .. } => {
                moving = false;
                walk.apply(ev);
                let oldest = walk.window_start.max(walk.w.saturating_sub(phys));
                inside = !writing && walk.r >= oldest && walk.r <= walk.w;
            }
            Ev::WSeek { pos } => {
                writing = false;
                if *pos != walk.w {
                    out.class("source seek");
                    inside = false;
                }
                walk.apply(ev);
            }
            e => walk.apply(e),
        }
        k += 1;
    }
    if !calls.iter().any(|c| c.is_seek()) {
        // sequential reading is lossless
        if let (Some(crate::sim::Op::ReadAll(n)), Some(last)) = (case.ops.last(), calls.last())
            && u64::from(*n) <= cap
            && (last.err().is_some() || last.start_pos != case.len())
        {
            out.problem(format!("a sequential reader stopped at {} of {}: {:?}", last.start_pos, case.len(), last.res));
        }
    }
    let read: u64 = calls.iter().filter(|c| !c.is_seek()).map(|c| c.end_pos.saturating_sub(c.start_pos)).sum();
    out.nontrivial = case.len() > cap && read >= 2;
    out
}
