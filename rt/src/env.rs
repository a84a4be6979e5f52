//! Fault plan and observation counters shared by the modelled and the real
//! operating system.

use std::sync::atomic::{AtomicUsize, AtomicBool, Ordering::Relaxed};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Op { Read = 0, Write = 1, Open = 2, Seek = 3, Map = 4, Stat = 5,
              Trunc = 6, Close = 7 }

pub const NOPS: usize = 8;

/// One planned fault: the nth operation (from arming) of a kind.
#[derive(Clone, Copy)]
pub struct Fault { pub op: u8, pub nth: u8, pub what: u8 }

/// Outcomes: failure, interruption, or at most n bytes.
pub const FAIL: u8 = 0;
pub const INTR: u8 = 1;
pub const SHORT: u8 = 2; // SHORT + n - 1: at most n bytes (n >= 1)

pub const EIO: i32 = 5;
pub const EINTR: i32 = 4;

struct Plan {
    armed: bool,
    faults: [Fault; 24],
    n: usize,
    counts: [usize; NOPS],
    hook_at: Option<(usize, usize)>,
    hook: Option<fn()>,
    muts: usize,
    in_hook: bool,
}

static mut PLAN: Plan = Plan {
    armed: false,
    faults: [Fault { op: 255, nth: 0, what: 0 }; 24],
    n: 0,
    counts: [0; NOPS],
    hook_at: None,
    hook: None,
    muts: 0,
    in_hook: false,
};

static mut WHEN: Option<fn() -> bool> = None;
static FORBID: AtomicBool = AtomicBool::new(false);
static BLOCKED: AtomicUsize = AtomicUsize::new(0);

#[allow(static_mut_refs)]
fn plan() -> &'static mut Plan { unsafe { &mut PLAN } }

/// Arm the plan: operation counting starts here.
pub fn arm(faults: &[Fault]) {
    let p = plan();
    p.n = faults.len();
    p.faults[..faults.len()].copy_from_slice(faults);
    p.counts = [0; NOPS];
    p.muts = 0;
    p.armed = true;
}

pub fn disarm() { plan().armed = false; }

pub fn count_of(op: u8) -> usize { plan().counts[op as usize] }
pub fn count(op: Op) -> usize { plan().counts[op as usize] }

/// Call `f` once at the given write: after `part` bytes of the nth write
/// from arming have reached the file (at most its length).
pub fn hook_write(nth: usize, part: usize, f: fn()) {
    let p = plan();
    p.hook_at = Some((nth, part));
    p.hook = Some(f);
}

/// Forbid file operations: any that happen are counted.
pub fn forbid(on: bool) { FORBID.store(on, Relaxed); }
/// Count file operations made while `f` holds.
pub fn forbid_when(f: Option<fn() -> bool>) { unsafe { WHEN = f; } }
pub fn forbidden_ops() -> usize { BLOCKED.load(Relaxed) }

pub enum Act { Full, Err(i32), Short(usize) }

/// Decide the outcome of an operation of n bytes.
pub fn outcome(op: Op) -> Act {
    if FORBID.load(Relaxed) && op != Op::Close {
        BLOCKED.fetch_add(1, Relaxed);
    }
    if let Some(f) = unsafe { WHEN } {
        if op != Op::Close && f() { BLOCKED.fetch_add(1, Relaxed); }
    }
    let p = plan();
    if !p.armed || p.in_hook { return Act::Full; }
    let k = p.counts[op as usize];
    p.counts[op as usize] += 1;
    for i in 0..p.n {
        let f = p.faults[i];
        if f.op == op as u8 && f.nth as usize == k {
            if f.what == FAIL { return Act::Err(EIO); }
            if f.what == INTR { return Act::Err(EINTR); }
            return Act::Short((f.what - SHORT) as usize + 1);
        }
    }
    Act::Full
}

/// For a write: bytes to put in the file before the hook runs, if it is due.
/// A write over existing content is taken to be atomic.
pub fn hook_due(n: usize, append: bool) -> Option<usize> {
    let p = plan();
    if !p.armed || p.in_hook { return None; }
    let k = p.muts;
    p.muts += 1;
    match p.hook_at {
        Some((at, part)) if at == k => {
            Some(if part >= n { n }
                 else if append || part == 0 { part }
                 else { n })
        }
        _ => None,
    }
}

pub fn run_hook() {
    let p = plan();
    if let Some(f) = p.hook.take() {
        p.in_hook = true;
        f();
        plan().in_hook = false;
    }
}

static mut WITHIN: Option<&'static str> = None;
static OUTSIDE: AtomicUsize = AtomicUsize::new(0);

/// Count files that are created elsewhere than in the directory.
pub fn creating_in(dir: String) {
    unsafe { WITHIN = Some(Box::leak(dir.into_boxed_str())); }
}

pub fn created_outside() -> usize { OUTSIDE.load(Relaxed) }

/// Observe the opening of a file.
pub unsafe fn opening(path: *const u8, flags: i32) {
    if flags & 0o20000100 == 0 { return; }
    if let Some(d) = WITHIN {
        for (i, c) in d.bytes().enumerate() {
            if *path.add(i) != c {
                OUTSIDE.fetch_add(1, Relaxed);
                return;
            }
        }
        let c = *path.add(d.len());
        if c != 0 && c != b'/' { OUTSIDE.fetch_add(1, Relaxed); }
    }
}

const MAPS: usize = 32;
static MAPPED: [AtomicUsize; MAPS] = [const { AtomicUsize::new(0) }; MAPS];

/// Observe that a file was mapped, or anything unmapped, at an address.
pub fn mapped(a: usize, on: bool) {
    let (from, to) = if on { (0, a) } else { (a, 0) };
    for m in MAPPED.iter() {
        if m.load(Relaxed) == from {
            m.store(to, Relaxed);
            return;
        }
    }
}

/// Number of descriptors of files and of maps held.
pub fn held() -> (usize, usize) {
    #[cfg(not(feature = "native"))]
    let f = crate::posix::open_fds();
    #[cfg(feature = "native")]
    let f = crate::interpose::open_fds();
    (f, MAPPED.iter().filter(|m| m.load(Relaxed) != 0).count())
}

/// Number of writes seen since arming.
pub fn writes() -> usize { plan().muts }
