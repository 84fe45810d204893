//! Per-thread hook that lets the verification harness own every blocking decision.
//!
//! A thread that never installs a hook runs the unmodified `parking_lot` code.
use std::cell::RefCell;
use std::sync::Arc;
use std::time::Duration;

/// What the harness' scheduler implements.
pub trait SimHook: Send + Sync {
    /// A point at which another actor may be scheduled.
    fn point(&self);
    /// The calling actor cannot go on until another one releases a lock.
    fn contended(&self);
    /// Registers the caller as waiter on the condition variable at `addr`.
    fn cond_register(&self, addr: usize);
    /// Blocks the caller until notified (false) or timed out (true).
    fn cond_block(&self, timeout: Option<Duration>) -> bool;
    /// Called after a woken waiter owns its mutex again; may unwind.
    fn cond_relocked(&self);
    /// Notifies waiters, returning how many.
    fn cond_notify(&self, addr: usize, all: bool) -> usize;
}

thread_local! {
    static HOOK: RefCell<Option<Arc<dyn SimHook>>> = const { RefCell::new(None) };
}

/// Installs or removes the hook of the current thread.
pub fn install(hook: Option<Arc<dyn SimHook>>) {
    let _ = HOOK.try_with(|h| *h.borrow_mut() = hook);
}

fn get() -> Option<Arc<dyn SimHook>> {
    HOOK.try_with(|h| h.try_borrow().ok().and_then(|h| h.clone()))
        .ok()
        .flatten()
}

#[inline]
pub(crate) fn active() -> bool {
    HOOK.try_with(|h| h.try_borrow().is_ok_and(|h| h.is_some()))
        .unwrap_or(false)
}

/// A scheduling point of the current thread (no-op without a hook).
pub fn point() {
    if let Some(h) = get() {
        h.point();
    }
}

pub(crate) struct PointOnDrop;
impl Drop for PointOnDrop {
    fn drop(&mut self) {
        point();
    }
}

pub(crate) fn acquire(try_lock: &mut dyn FnMut() -> bool) {
    let Some(h) = get() else {
        while !try_lock() {
            std::thread::yield_now();
        }
        return;
    };
    h.point();
    while !try_lock() {
        h.contended();
    }
}

pub(crate) fn cond_notify(addr: usize, all: bool) -> usize {
    match get() {
        Some(h) => {
            h.point();
            let n = h.cond_notify(addr, all);
            h.point();
            n
        }
        None => 0,
    }
}

pub(crate) fn cond_wait(
    addr: usize,
    timeout: Option<Duration>,
    unlock: &mut dyn FnMut(),
    try_lock: &mut dyn FnMut() -> bool,
) -> bool {
    let h = get().expect("hook installed");
    h.cond_register(addr);
    unlock();
    let timed_out = h.cond_block(timeout);
    while !try_lock() {
        h.contended();
    }
    h.cond_relocked();
    timed_out
}
