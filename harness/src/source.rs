//! Scripted source.
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

use bytes::Bytes;
use futures_util::Stream;
use serde::{Deserialize, Serialize};
use stream_download::source::{DecodeError, SourceStream, StreamOutcome};
use tokio::time::{Instant, Sleep};

use crate::trace::{Ev, Shared};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Item {
    Chunk(u32),
    Empty,
    Err,
    /// Nothing for that many virtual ms, then go on with the next item.
    Stall(u16),
    /// Connection dead until a reconnect or seek.
    Dead,
    /// Source silent for good.
    Silent,
    /// Premature end of the current response.
    End,
    /// That many error items in a row, without ever being pending.
    Errs(u16),
    /// That many responses in a row that end at once.
    Ends(u16),
    /// That many empty chunks in a row, without ever being pending.
    Empties(u16),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Beh {
    Ok,
    Delay(u16),
    Err,
    Hang,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SourceSpec {
    pub len: u32,
    pub known_len: bool,
    pub seekable: bool,
    pub script: Vec<Item>,
    /// Chunk size once the script is exhausted.
    pub tail: u32,
    pub seeks: Vec<Beh>,
    pub reconnects: Vec<Beh>,
    pub finish_delay: u16,
    pub finish_fail: bool,
    /// With a known length: that many bytes more than asked for are delivered, also behind the end.
    #[serde(default)]
    pub over: u16,
}

#[derive(Debug, Clone)]
pub struct MockErr(pub String);
impl std::fmt::Display for MockErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for MockErr {}
impl DecodeError for MockErr {
    async fn decode_error(self) -> String {
        format!("decoded:{}", self.0)
    }
}

pub struct MockSource {
    pub sh: Arc<Shared>,
    spec: SourceSpec,
    start: Instant,
    pos: u64,
    end: Option<u64>,
    next: usize,
    sleep: Option<Pin<Box<Sleep>>>,
    dead: bool,
    silent: bool,
    ended: bool,
    n_seek: usize,
    n_rec: usize,
    /// Items left of a run, and whether they are errors.
    run: (u16, bool),
    ends: u16,
}

impl MockSource {
    pub fn new(sh: Arc<Shared>, spec: SourceSpec, start: Instant) -> Self {
        let mut s = Self {
            sh,
            spec,
            start,
            pos: 0,
            end: None,
            next: 0,
            sleep: None,
            dead: false,
            silent: false,
            ended: false,
            n_seek: 0,
            n_rec: 0,
            run: (0, false),
            ends: 0,
        };
        s.reset(0, None);
        s
    }
    fn reset(&mut self, pos: u64, end: Option<u64>) {
        self.pos = pos;
        self.end = end;
        self.sleep = None;
        self.dead = false;
        self.ended = false;
        self.run = (0, false);
    }
    fn range_end(&self) -> u64 {
        let over = if self.spec.known_len { u64::from(self.spec.over) } else { 0 };
        self.end
            .map_or(u64::from(self.spec.len), |e| e.min(u64::from(self.spec.len)))
            + over
    }
    fn begin(&self) {
        self.sh.tick(self.start);
        self.sh.sched.at_point();
    }
    fn chunk(&mut self, n: u64) -> Poll<Option<Result<Bytes, MockErr>>> {
        let end = self.range_end();
        if self.pos >= end {
            if !self.ended {
                self.ended = true;
                self.sh.ev(Ev::ItemEnd { pos: self.pos, early: false });
            }
            return Poll::Ready(None);
        }
        let n = n.max(1).min(end - self.pos);
        let data: Vec<u8> = (self.pos..self.pos + n).map(|p| self.sh.byte(p)).collect();
        self.sh.ev(Ev::Chunk { pos: self.pos, len: n });
        self.pos += n;
        Poll::Ready(Some(Ok(Bytes::from(data))))
    }
}

impl Drop for MockSource {
    fn drop(&mut self) {
        self.sh.ev(Ev::SourceDropped);
        self.sh.sched.main_wake.notify_one();
    }
}

impl Stream for MockSource {
    type Item = Result<Bytes, MockErr>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.begin();
        loop {
            if self.silent || self.dead {
                return Poll::Pending;
            }
            if let Some(s) = self.sleep.as_mut() {
                if s.as_mut().poll(cx).is_pending() {
                    return Poll::Pending;
                }
                self.sleep = None;
                self.sh.tick(self.start);
            }
            if self.pos >= self.range_end() || self.ended {
                let pos = self.pos;
                if !self.ended {
                    self.ended = true;
                    self.sh.ev(Ev::ItemEnd { pos, early: false });
                }
                return Poll::Ready(None);
            }
            if self.ends > 0 {
                self.ends -= 1;
                self.ended = true;
                let pos = self.pos;
                self.sh.ev(Ev::ItemEnd { pos, early: true });
                return Poll::Ready(None);
            }
            if self.run.0 > 0 {
                self.run.0 -= 1;
                if self.run.1 {
                    self.sh.ev(Ev::ItemErr);
                    return Poll::Ready(Some(Err(MockErr("item".into()))));
                }
                let pos = self.pos;
                self.sh.ev(Ev::Chunk { pos, len: 0 });
                return Poll::Ready(Some(Ok(Bytes::new())));
            }
            let item = self
                .spec
                .script
                .get(self.next)
                .copied()
                .unwrap_or(Item::Chunk(self.spec.tail));
            self.next += 1;
            match item {
                Item::Chunk(n) => return self.chunk(u64::from(n)),
                Item::Empty => {
                    let pos = self.pos;
                    self.sh.ev(Ev::Chunk { pos, len: 0 });
                    return Poll::Ready(Some(Ok(Bytes::new())));
                }
                Item::Err => {
                    self.sh.ev(Ev::ItemErr);
                    return Poll::Ready(Some(Err(MockErr("item".into()))));
                }
                Item::Ends(n) => self.ends = n,
                Item::Errs(n) => self.run = (n, true),
                Item::Empties(n) => self.run = (n, false),
                Item::Stall(ms) => {
                    self.sh.ev(Ev::StallBegin);
                    self.sleep = Some(Box::pin(tokio::time::sleep(Duration::from_millis(
                        u64::from(ms),
                    ))));
                }
                Item::Dead => {
                    self.sh.ev(Ev::StallBegin);
                    self.dead = true;
                }
                Item::Silent => {
                    self.sh.ev(Ev::StallBegin);
                    self.silent = true;
                }
                Item::End => {
                    self.ended = true;
                    let pos = self.pos;
                    self.sh.ev(Ev::ItemEnd { pos, early: true });
                    return Poll::Ready(None);
                }
            }
        }
    }
}

struct DropNote<'a>(&'a Shared, bool, Instant);
impl Drop for DropNote<'_> {
    fn drop(&mut self) {
        if !self.1 {
            self.0.tick(self.2);
            self.0.ev(Ev::ReconnectDropped);
        }
    }
}

impl SourceStream for MockSource {
    type Params = (Arc<Shared>, SourceSpec, Instant);
    type StreamCreationError = MockErr;

    async fn create(p: Self::Params) -> Result<Self, Self::StreamCreationError> {
        Ok(Self::new(p.0, p.1, p.2))
    }
    fn content_length(&self) -> Option<u64> {
        self.spec.known_len.then_some(u64::from(self.spec.len))
    }
    async fn seek_range(&mut self, start: u64, end: Option<u64>) -> io::Result<()> {
        self.begin();
        self.sh.ev(Ev::SeekRange { start, end });
        let beh = self.spec.seeks.get(self.n_seek).copied().unwrap_or(Beh::Ok);
        self.n_seek += 1;
        match beh {
            Beh::Ok => {}
            Beh::Delay(ms) => {
                tokio::time::sleep(Duration::from_millis(u64::from(ms))).await;
                self.sh.tick(self.start);
            }
            Beh::Err => {
                self.sh.ev(Ev::SeekRangeDone { ok: false });
                return Err(self.sh.fault("mock seek failure"));
            }
            Beh::Hang => std::future::pending().await,
        }
        if !self.spec.seekable {
            self.sh.ev(Ev::SeekRangeDone { ok: false });
            return Err(io::Error::new(io::ErrorKind::Unsupported, "mock unseekable"));
        }
        self.reset(start, end);
        self.sh.ev(Ev::SeekRangeDone { ok: true });
        Ok(())
    }
    async fn reconnect(&mut self, current_position: u64) -> io::Result<()> {
        self.begin();
        self.sh.ev(Ev::Reconnect { pos: current_position });
        let sh = self.sh.clone();
        let mut note = DropNote(&sh, false, self.start);
        let beh = self
            .spec
            .reconnects
            .get(self.n_rec)
            .copied()
            .unwrap_or(Beh::Ok);
        self.n_rec += 1;
        match beh {
            Beh::Ok => {}
            Beh::Delay(ms) => {
                tokio::time::sleep(Duration::from_millis(u64::from(ms))).await;
                self.sh.tick(self.start);
            }
            Beh::Err => {
                note.1 = true;
                self.sh.ev(Ev::ReconnectDone { ok: false });
                return Err(self.sh.fault("mock reconnect failure"));
            }
            Beh::Hang => std::future::pending().await,
        }
        note.1 = true;
        self.reset(current_position, None);
        self.sh.ev(Ev::ReconnectDone { ok: true });
        Ok(())
    }
    fn supports_seek(&self) -> bool {
        self.spec.seekable
    }
    async fn on_finish(&mut self, result: io::Result<()>, outcome: StreamOutcome) -> io::Result<()> {
        self.begin();
        self.sh.ev(Ev::Finish {
            ok: result.is_ok(),
            kind: result.as_ref().err().map(io::Error::kind),
            cancelled: outcome == StreamOutcome::CancelledByUser,
        });
        if self.spec.finish_delay > 0 {
            tokio::time::sleep(Duration::from_millis(u64::from(self.spec.finish_delay))).await;
            self.sh.tick(self.start);
        }
        let res = if self.spec.finish_fail && result.is_ok() {
            Err(self.sh.fault("mock finish failure"))
        } else {
            result
        };
        self.sh.ev(Ev::FinishDone { ok: res.is_ok() });
        res
    }
}
