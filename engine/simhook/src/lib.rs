//! Scheduling-point plumbing shared by the instrumented `std`, `dashmap` and the explorer.
//!
//! A *point* is a place inside a task's poll where another thread of the real, multi-threaded
//! program could run. Points are only offered while no instrumented lock is held, so that a task
//! polled "in between" can never block on a lock held below it on the same stack.
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static GUARDS: Cell<i32> = const { Cell::new(0) };
    static ABANDONED: Cell<bool> = const { Cell::new(false) };
}
static HANDLER: AtomicUsize = AtomicUsize::new(0);

pub fn set_handler(f: fn(u8)) {
    HANDLER.store(f as usize, Ordering::SeqCst);
}
/// Turn points on or off for the calling thread.
pub fn set_active(on: bool) {
    ACTIVE.with(|a| a.set(on));
    GUARDS.with(|g| g.set(0));
}
/// A lock was contended: the schedule cannot be continued on one thread.
pub fn abandoned() -> bool {
    ABANDONED.with(|a| a.get())
}
pub fn is_active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}
#[inline]
pub fn point(kind: u8) {
    if !is_active() || std::thread::panicking() {
        return;
    }
    if GUARDS.with(|g| g.get()) != 0 {
        return;
    }
    let h = HANDLER.load(Ordering::Relaxed);
    if h != 0 {
        let f: fn(u8) = unsafe { std::mem::transmute(h) };
        f(kind);
    }
}
#[inline]
pub fn guard_acquired() {
    if is_active() {
        GUARDS.with(|g| g.set(g.get() + 1));
    }
}
#[inline]
pub fn guard_released() {
    if is_active() {
        GUARDS.with(|g| g.set(g.get() - 1));
    }
}
pub fn guards() -> i32 {
    GUARDS.try_with(|g| g.get()).unwrap_or(0)
}
/// An instrumented lock was found held by a suspended task: the real program would block a thread
/// here. The explorer abandons the schedule.
pub fn contended() {
    if is_active() && !std::thread::panicking() {
        ABANDONED.with(|a| a.set(true));
        std::panic::panic_any(LockContended);
    }
}
pub struct LockContended;

pub const K_ATOMIC: u8 = 1;
pub const K_LOCK: u8 = 2;
pub const K_UNLOCK: u8 = 3;
pub const K_DASH: u8 = 4;
