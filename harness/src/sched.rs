//! Deterministic two-actor scheduler: the reader thread (R) and the runtime thread (D) run one
//! at a time; every lock operation, condition-variable operation, storage call, source poll and
//! trace event of the code under test is a point where the generated schedule may switch.
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Actor {
    R,
    D,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RState {
    /// Not started yet or runnable.
    Ready,
    /// Blocked in a condition variable, optionally with a virtual deadline in ms.
    Cond(Option<u64>),
    /// Waiting for virtual time.
    Sleep(u64),
    /// Waiting until the harness has handed over the stream.
    Idle,
    Finished,
}

/// Generated schedule. Shrinks towards "no preemption".
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct SchedSpec {
    /// The downloader runs until idle before the reader starts.
    pub d_first: bool,
    /// When a notification makes the reader runnable, switch to it at once.
    pub wake_switch: bool,
    /// Preemptions: (points to let pass, virtual ms the reader is held up if it is preempted).
    pub preempt: Vec<(u16, u8)>,
    /// Random preemption: seed and probability in 1/256.
    pub random: Option<(u64, u8)>,
}

struct St {
    turn: Actor,
    r: RState,
    /// R is registered on this condvar address and not yet notified.
    waiting: Option<usize>,
    points: u64,
    preempt_idx: usize,
    preempt_left: u32,
    rng: u64,
    now_ms: u64,
    abort: bool,
    livelock: bool,
    /// D runs free (no more switching).
    free: bool,
    activity: u64,
}

pub struct Sched {
    spec: SchedSpec,
    max_points: u64,
    st: Mutex<St>,
    cv: Condvar,
    /// Wakes the driver future of D.
    pub main_wake: tokio::sync::Notify,
}

/// Payload used to unwind an actor after the verdict is known.
pub struct SimAbort;

thread_local! {
    static ME: std::cell::Cell<Option<Actor>> = const { std::cell::Cell::new(None) };
}

pub fn set_me(a: Option<Actor>) {
    ME.with(|m| m.set(a));
}
pub fn me() -> Option<Actor> {
    ME.try_with(|m| m.get()).ok().flatten()
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Sched {
    pub fn new(spec: SchedSpec, max_points: u64) -> Arc<Self> {
        let left = spec.preempt.first().map_or(0, |p| u32::from(p.0));
        let rng = spec.random.map_or(0, |r| r.0);
        Arc::new(Self {
            spec,
            max_points,
            st: Mutex::new(St {
                turn: Actor::D,
                r: RState::Idle,
                waiting: None,
                points: 0,
                preempt_idx: 0,
                preempt_left: left,
                rng,
                now_ms: 0,
                abort: false,
                livelock: false,
                free: false,
                activity: 0,
            }),
            cv: Condvar::new(),
            main_wake: tokio::sync::Notify::new(),
        })
    }

    fn lock(&self) -> std::sync::MutexGuard<'_, St> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn spec(&self) -> &SchedSpec {
        &self.spec
    }
    pub fn activity(&self) -> u64 {
        self.lock().activity
    }
    pub fn points(&self) -> u64 {
        self.lock().points
    }
    pub fn set_now(&self, ms: u64) {
        self.lock().now_ms = ms;
    }
    pub fn now(&self) -> u64 {
        self.lock().now_ms
    }
    pub fn r_state(&self) -> RState {
        self.lock().r
    }
    pub fn livelocked(&self) -> bool {
        self.lock().livelock
    }
    pub fn aborted(&self) -> bool {
        self.lock().abort
    }

    fn wait_turn<'a>(
        &'a self,
        who: Actor,
        mut st: std::sync::MutexGuard<'a, St>,
    ) -> std::sync::MutexGuard<'a, St> {
        while st.turn != who {
            st = self.cv.wait(st).unwrap_or_else(|e| e.into_inner());
        }
        st
    }

    fn give<'a>(
        &'a self,
        to: Actor,
        mut st: std::sync::MutexGuard<'a, St>,
    ) -> std::sync::MutexGuard<'a, St> {
        st.turn = to;
        self.cv.notify_all();
        st
    }

    fn decide(&self, st: &mut St) -> Option<u8> {
        // returns Some(pause) if a preemption is due at this point
        if st.preempt_idx < self.spec.preempt.len() {
            if st.preempt_left == 0 {
                let pause = self.spec.preempt[st.preempt_idx].1;
                st.preempt_idx += 1;
                st.preempt_left = self
                    .spec
                    .preempt
                    .get(st.preempt_idx)
                    .map_or(0, |p| u32::from(p.0));
                return Some(pause);
            }
            st.preempt_left -= 1;
        }
        if let Some((_, p)) = self.spec.random {
            let r = splitmix(&mut st.rng);
            if ((r & 0xff) as u8) < p {
                return Some(0);
            }
        }
        None
    }

    /// A scheduling point of the calling actor.
    pub fn at_point(&self) {
        let Some(who) = me() else { return };
        let mut st = self.lock();
        st.activity += 1;
        if st.abort || st.free {
            let livelock = st.livelock;
            drop(st);
            if livelock && !std::thread::panicking() && who == Actor::D {
                std::panic::resume_unwind(Box::new(SimAbort));
            }
            return;
        }
        st.points += 1;
        if st.points > self.max_points {
            st.livelock = true;
            st.abort = true;
            drop(st);
            if !std::thread::panicking() {
                std::panic::resume_unwind(Box::new(SimAbort));
            }
            return;
        }
        let Some(pause) = self.decide(&mut st) else { return };
        match who {
            Actor::D => {
                if st.r == RState::Ready {
                    let st = self.give(Actor::R, st);
                    drop(self.wait_turn(Actor::D, st));
                }
            }
            Actor::R => {
                if pause > 0 {
                    st.r = RState::Sleep(st.now_ms + u64::from(pause));
                    self.main_wake.notify_one();
                }
                let st = self.give(Actor::D, st);
                let mut st = self.wait_turn(Actor::R, st);
                st.r = RState::Ready;
            }
        }
    }

    /// The actor is waiting for a lock held by the other.
    pub fn at_contended(&self) {
        let Some(who) = me() else {
            std::thread::yield_now();
            return;
        };
        let mut st = self.lock();
        st.activity += 1;
        st.points += 1;
        if st.abort || st.free {
            drop(st);
            std::thread::yield_now();
            return;
        }
        if st.points > self.max_points {
            st.livelock = true;
            st.abort = true;
            return;
        }
        match who {
            Actor::D => {
                // R holds the lock, so it is preempted, not blocked
                let st = self.give(Actor::R, st);
                drop(self.wait_turn(Actor::D, st));
            }
            Actor::R => {
                let st = self.give(Actor::D, st);
                drop(self.wait_turn(Actor::R, st));
            }
        }
    }

    pub fn cond_register(&self, addr: usize) {
        if me() == Some(Actor::R) {
            self.lock().waiting = Some(addr);
        }
    }

    pub fn cond_block(&self, timeout: Option<Duration>) -> bool {
        if me() != Some(Actor::R) {
            return timeout.is_some();
        }
        let mut st = self.lock();
        if st.waiting.is_none() || st.abort {
            return false;
        }
        let deadline = timeout.map(|t| st.now_ms + t.as_millis() as u64 + 1);
        st.r = RState::Cond(deadline);
        self.main_wake.notify_one();
        let st = self.give(Actor::D, st);
        let mut st = self.wait_turn(Actor::R, st);
        let timed_out = st.waiting.take().is_some();
        st.r = RState::Ready;
        timed_out
    }

    pub fn cond_relocked(&self) {
        if self.aborted() && me() == Some(Actor::R) && !std::thread::panicking() {
            std::panic::resume_unwind(Box::new(SimAbort));
        }
    }

    pub fn cond_notify(&self, addr: usize) -> usize {
        let mut st = self.lock();
        st.activity += 1;
        if st.waiting == Some(addr) {
            st.waiting = None;
            if matches!(st.r, RState::Cond(_)) {
                st.r = RState::Ready;
                self.main_wake.notify_one();
                if self.spec.wake_switch
                    && me() == Some(Actor::D)
                    && !st.abort
                    && !st.free
                {
                    let st = self.give(Actor::R, st);
                    drop(self.wait_turn(Actor::D, st));
                }
            }
            1
        } else {
            0
        }
    }

    // ---- called by the reader thread

    /// Blocks R's thread until D has handed over for the first time.
    pub fn r_start(&self) {
        let st = self.lock();
        drop(self.wait_turn(Actor::R, st));
    }

    pub fn r_sleep(&self, ms: u64) {
        let mut st = self.lock();
        if st.abort {
            return;
        }
        st.r = RState::Sleep(st.now_ms + ms);
        self.main_wake.notify_one();
        let st = self.give(Actor::D, st);
        drop(self.wait_turn(Actor::R, st));
    }

    pub fn r_finished(&self) {
        let mut st = self.lock();
        st.r = RState::Finished;
        self.main_wake.notify_one();
        drop(self.give(Actor::D, st));
    }

    // ---- called by D's driver future, which holds no locks of the code under test

    pub fn make_ready(&self) {
        let mut st = self.lock();
        if !matches!(st.r, RState::Finished) {
            st.r = RState::Ready;
        }
    }

    /// Lets R run until it yields, blocks or finishes.
    pub fn run_r(&self) {
        let st = self.lock();
        if st.r != RState::Ready {
            return;
        }
        let st = self.give(Actor::R, st);
        drop(self.wait_turn(Actor::D, st));
    }

    /// A verdict is known: let R unwind.
    pub fn abort_r(&self) {
        let mut st = self.lock();
        st.abort = true;
        if st.r == RState::Finished {
            return;
        }
        st.r = RState::Ready;
        let st = self.give(Actor::R, st);
        let mut st = self.wait_turn(Actor::D, st);
        st.free = true;
    }

    /// From now on D runs without switching.
    pub fn set_free(&self) {
        self.lock().free = true;
    }
}

pub struct Hook(pub Arc<Sched>);

impl parking_lot::simhook::SimHook for Hook {
    fn point(&self) {
        self.0.at_point();
    }
    fn contended(&self) {
        self.0.at_contended();
    }
    fn cond_register(&self, addr: usize) {
        self.0.cond_register(addr);
    }
    fn cond_block(&self, timeout: Option<Duration>) -> bool {
        self.0.cond_block(timeout)
    }
    fn cond_relocked(&self) {
        self.0.cond_relocked();
    }
    fn cond_notify(&self, addr: usize, _all: bool) -> usize {
        self.0.cond_notify(addr)
    }
}
