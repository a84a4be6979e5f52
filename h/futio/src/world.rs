//! What runs around a task: an executor that polls only what was woken, a
//! semaphore of one permit that may be taken by others, and a dispatch pool
//! whose queue moves when the harness says so.

use blocking_permit::{deregister_dispatch_pool, register_dispatch_pool,
                      DispatchPool, Semaphore, Semaphorish};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use sxrt::env;
use sxrt::*;

/// Groups of assertions, selected per property.
pub const CONTENT: u64 = 1;
pub const LIMITS: u64 = 2;
pub const BLOCKING: u64 = 4;
pub const WAKING: u64 = 8;
pub const HINTS: u64 = 16;
pub const ERRORS: u64 = 32;

/// Assertion of a group.
pub fn chk(group: u64, c: bool, msg: &'static str) {
    if param(9, 255) & group != 0 { check(c, msg); }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Direct, Permit, Dispatch }

pub struct Flag { pub n: AtomicUsize }

impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.n.fetch_add(1, SeqCst); }
    fn wake_by_ref(self: &Arc<Self>) { self.n.fetch_add(1, SeqCst); }
}

pub struct World {
    pub kind: Kind,
    pub sem: &'static Semaphore,
    held: Option<Held>,
    pool: Option<DispatchPool>,
    /// tasks run for the code under test
    pub ran: usize,
    /// times the permit may still be taken, and extra polls made
    pub holds: u8,
    pub extra: u8,
    /// polls that may be needed until ready
    pub most: u32,
    /// no other task of the code under test uses the semaphore
    pub alone: bool,
}

/// A permit taken by somebody else, given back on drop.
struct Held { _p: Box<dyn std::any::Any> }

static mut SEM: Option<&'static Semaphore> = None;
static HELD: AtomicBool = AtomicBool::new(false);
static INTASK: AtomicBool = AtomicBool::new(false);

/// Whether somebody else has the permit.
pub fn is_held_now() -> bool { HELD.load(SeqCst) }

fn op_outside_permit() -> bool {
    HELD.load(SeqCst)
        || unsafe { SEM }.map_or(true, |s| s.available_permits() != 0)
}

fn op_outside_task() -> bool { !INTASK.load(SeqCst) }

/// Tasks the pool holds before it makes callers run the oldest.
const QUEUE: usize = 2;

static IDLE: AtomicBool = AtomicBool::new(false);

fn idle() { IDLE.store(true, SeqCst); }

/// A pool of which the only worker is busy, with its queue full of nothing.
fn new_pool() -> DispatchPool {
    let p = DispatchPool::builder().pool_size(1).queue_length(QUEUE).create();
    // keep the real worker busy, as the modelled one is
    #[cfg(feature = "native")]
    {
        static TAKEN: AtomicBool = AtomicBool::new(false);
        p.spawn(Box::new(|| {
            TAKEN.store(true, SeqCst);
            loop { std::thread::park(); }
        }));
        while !TAKEN.load(SeqCst) { std::thread::yield_now(); }
    }
    for _ in 0..QUEUE { p.spawn(Box::new(idle)); }
    p
}

impl World {
    pub fn new(kind: Kind) -> World {
        let sem: &'static Semaphore =
            Box::leak(Box::new(Semaphore::default_new(1)));
        unsafe { SEM = Some(sem); }
        let pool = if kind == Kind::Dispatch {
            let p = new_pool();
            register_dispatch_pool(p.clone());
            Some(p)
        } else {
            None
        };
        World { kind, sem, held: None, pool, ran: 0, holds: 2, extra: 1,
                most: 12, alone: true }
    }

    pub fn waker() -> (Arc<Flag>, Waker) {
        let f = Arc::new(Flag { n: AtomicUsize::new(0) });
        (f.clone(), Waker::from(f))
    }

    /// Perhaps somebody takes the permit now.
    pub fn maybe_hold(&mut self) {
        if self.kind == Kind::Permit && self.held.is_none() && self.holds > 0
            && pick(2) == 1
        {
            self.holds -= 1;
            if let Ok(p) = self.sem.try_acquire() {
                HELD.store(true, SeqCst);
                self.held = Some(Held { _p: Box::new(p) });
            }
        }
    }

    pub fn is_held(&self) -> bool { self.held.is_some() }

    pub fn release(&mut self) -> bool {
        if self.held.is_some() {
            HELD.store(false, SeqCst);
            self.held = None;
            true
        } else {
            false
        }
    }

    /// Let the pool run the oldest task, if there is any.
    pub fn run_task(&mut self) -> bool {
        if let Some(p) = &self.pool {
            for _ in 0..QUEUE {
                IDLE.store(false, SeqCst);
                INTASK.store(true, SeqCst);
                p.spawn(Box::new(idle));
                INTASK.store(false, SeqCst);
                if !IDLE.load(SeqCst) {
                    self.ran += 1;
                    return true;
                }
            }
        }
        false
    }

    /// One poll, with file operations observed.
    pub fn poll<T>(&mut self, cx: &mut Context<'_>,
                   f: &mut dyn FnMut(&mut Context<'_>) -> Poll<T>) -> Poll<T> {
        let n = env::forbidden_ops();
        env::forbid_when(match self.kind {
            Kind::Direct => None,
            Kind::Permit => Some(op_outside_permit),
            Kind::Dispatch => Some(op_outside_task),
        });
        let r = f(cx);
        env::forbid_when(None);
        chk(BLOCKING, env::forbidden_ops() == n,
            "file operation without permission to block");
        if r.is_ready() && self.kind == Kind::Permit && self.held.is_none()
            && self.alone
        {
            chk(WAKING, self.sem.available_permits() == 1,
                "a permit is kept when done");
        }
        r
    }

    /// Something to wait for happens.
    fn event(&mut self) {
        if self.release() { return; }
        self.run_task();
    }

    /// Run to completion, polling when woken, and perhaps when not.
    pub fn drive<T>(&mut self,
                    f: &mut dyn FnMut(&mut Context<'_>) -> Poll<T>) -> T {
        let (mut flag, mut waker) = World::waker();
        let mut rounds = 0;
        loop {
            self.maybe_hold();
            let seen = flag.n.load(SeqCst);
            let mut cx = Context::from_waker(&waker);
            if let Poll::Ready(t) = self.poll(&mut cx, f) { return t; }
            rounds += 1;
            chk(WAKING, rounds < self.most, "no progress");
            if rounds >= self.most { kill(); }
            if self.extra > 0 && pick(2) == 1 {
                // polled again without cause, perhaps by another task
                self.extra -= 1;
                if pick(2) == 1 {
                    let (f2, w2) = World::waker();
                    flag = f2;
                    waker = w2;
                    let mut cx = Context::from_waker(&waker);
                    if let Poll::Ready(t) = self.poll(&mut cx, f) {
                        return t;
                    }
                } else {
                    continue;
                }
                if flag.n.load(SeqCst) == 0 { self.event(); }
                chk(WAKING, flag.n.load(SeqCst) > 0,
                    "pending task is never woken");
                continue;
            }
            if flag.n.load(SeqCst) == seen { self.event(); }
            chk(WAKING, flag.n.load(SeqCst) > seen,
                "pending task is never woken");
        }
    }
}

impl Drop for World {
    fn drop(&mut self) {
        self.release();
        if self.pool.is_some() { deregister_dispatch_pool(); }
    }
}
