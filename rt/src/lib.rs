//! Harness runtime. In the symbolic build the `sx_*` primitives are resolved
//! by the executor and the operating system is the model in `posix`; in the
//! native build (`native` feature) inputs come from a replay file, the
//! operating system is real, and `interpose` applies the same fault plan to
//! real system calls.

pub mod env;

#[cfg(not(feature = "native"))]
pub mod posix;

#[cfg(feature = "native")]
pub mod interpose;

#[cfg(feature = "native")]
pub mod native;

#[cfg(not(feature = "native"))]
mod prim {
    extern "C" {
        pub fn sx_any_u8() -> u8;
        pub fn sx_any_u16() -> u16;
        pub fn sx_any_u32() -> u32;
        pub fn sx_any_u64() -> u64;
        pub fn sx_assume(c: bool);
        pub fn sx_check(c: bool, p: *const u8, n: usize);
        pub fn sx_reach(id: u32);
        pub fn sx_out(v: u64);
        pub fn sx_fold(p: *const u8, n: usize);
        pub fn sx_kill() -> !;
        pub fn sx_conc(v: u64) -> u64;
        pub fn sx_param(i: u32, d: u64) -> u64;
        pub fn sx_guard(f: extern "C" fn(usize) -> usize, arg: usize,
                        kind: u32) -> usize;
        pub fn sx_park();
        pub fn sx_init_args(n: i32, v: *const *const u8, e: *const *const u8);
    }
}

#[cfg(feature = "native")]
use native as prim;

pub fn any_u8() -> u8 { unsafe { prim::sx_any_u8() } }
pub fn any_u16() -> u16 { unsafe { prim::sx_any_u16() } }
pub fn any_u32() -> u32 { unsafe { prim::sx_any_u32() } }
pub fn any_u64() -> u64 { unsafe { prim::sx_any_u64() } }
pub fn any_bool() -> bool { any_u8() & 1 == 1 }

/// Any value less than n.
pub fn below(n: u8) -> u8 {
    let v = any_u8();
    assume(v < n);
    v
}

/// Any value less than n, split into one path per value.
pub fn pick(n: u8) -> u8 { conc(below(n) as u64) as u8 }

pub fn assume(c: bool) { unsafe { prim::sx_assume(c) } }
pub fn reach(id: u32) { unsafe { prim::sx_reach(id) } }
pub fn kill() -> ! { unsafe { prim::sx_kill() } }
/// Bound chosen by the tier.
pub fn param(i: u32, d: u64) -> u64 { unsafe { prim::sx_param(i, d) } }
pub fn conc(v: u64) -> u64 { unsafe { prim::sx_conc(v) } }

#[inline(never)]
pub fn check(c: bool, msg: &'static str) {
    unsafe { prim::sx_check(c, msg.as_ptr(), msg.len()) }
}

/// Record an observation, compared between solver model and native run.
pub fn out(v: u64) { unsafe { prim::sx_out(v) } }
pub fn out_bytes(b: &[u8]) { unsafe { prim::sx_fold(b.as_ptr(), b.len()) } }

/// Whether f panics.
#[inline(never)]
pub fn panics(f: fn()) -> bool {
    extern "C" fn go(f: usize) -> usize {
        let f: fn() = unsafe { std::mem::transmute(f) };
        f();
        0
    }
    #[cfg(not(feature = "native"))]
    { unsafe { prim::sx_guard(go, f as usize, 0) != 0 } }
    #[cfg(feature = "native")]
    { native::dies(go, f as usize) }
}

/// Run f as the main function of a process with the given arguments, with
/// its output in `stdout()` and `stderr()`. Gives the exit code, 101 for a
/// panic.
#[inline(never)]
pub fn process(args: &[&str], f: fn() -> i32) -> i32 {
    let mut v: Vec<*const u8> = Vec::with_capacity(args.len() + 1);
    for a in args {
        let mut s = Vec::with_capacity(a.len() + 1);
        s.extend_from_slice(a.as_bytes());
        s.push(0);
        v.push(s.as_ptr());
        std::mem::forget(s);
    }
    v.push(std::ptr::null());
    let (n, p) = (args.len() as i32, v.as_ptr());
    clear_stdio();
    std::mem::forget(v);
    extern "C" fn go(f: usize) -> usize {
        use std::io::Write;
        let f: fn() -> i32 = unsafe { std::mem::transmute(f) };
        let r = f();
        std::io::stdout().flush().ok();
        r as usize
    }
    #[cfg(not(feature = "native"))]
    unsafe {
        prim::sx_init_args(n, p, v_empty());
        prim::sx_guard(go, f as usize, 2) as i32
    }
    #[cfg(feature = "native")]
    { native::child(n, p, go, f as usize) }
}

#[cfg(not(feature = "native"))]
fn v_empty() -> *const *const u8 {
    static E: [usize; 1] = [0];
    E.as_ptr() as *const *const u8
}

/// Bytes with any content.
pub fn any_bytes<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    for b in a.iter_mut() { *b = any_u8(); }
    a
}

/// Byte-wise equality as one condition (no fork).
pub fn eq(a: &[u8], b: &[u8]) -> bool { a == b }

/// Standard output captured from the code under test.
static mut STDOUT: Vec<u8> = Vec::new();
static mut STDERR: Vec<u8> = Vec::new();

#[allow(static_mut_refs)]
pub(crate) fn stdio(fd: i32, b: &[u8]) {
    if fd == 1 { unsafe { STDOUT.extend_from_slice(b) } }
    if fd == 2 { unsafe { STDERR.extend_from_slice(b) } }
}

#[allow(static_mut_refs)]
pub fn stdout() -> &'static [u8] { unsafe { &STDOUT } }

#[allow(static_mut_refs)]
pub fn stderr() -> &'static [u8] { unsafe { &STDERR } }

#[allow(static_mut_refs)]
fn clear_stdio() { unsafe { STDOUT.clear(); STDERR.clear(); } }

/// Directory for named files.
pub fn dir() -> String {
    #[cfg(not(feature = "native"))]
    { String::from("/d") }
    #[cfg(feature = "native")]
    { native::dir() }
}

pub fn path(name: &str) -> String {
    let mut p = dir();
    p.push('/');
    p.push_str(name);
    p
}

/// Create or replace a named file, outside of the fault plan.
pub fn put_file(name: &str, data: &[u8]) {
    #[cfg(not(feature = "native"))]
    posix::poke(path(name).as_bytes(), data);
    #[cfg(feature = "native")]
    native::put_file(name, data);
}

/// Create or replace a named file with a hole of zeros between two parts.
pub fn put_sparse(name: &str, before: &[u8], hole: u64, after: &[u8]) {
    #[cfg(not(feature = "native"))]
    {
        posix::poke(path(name).as_bytes(), &[before, after].concat());
        posix::widen(path(name).as_bytes(), before.len(), hole as usize);
    }
    #[cfg(feature = "native")]
    native::put_sparse(name, before, hole, after);
}

/// Content of a named file, outside of the fault plan.
pub fn get_file(name: &str) -> Vec<u8> {
    #[cfg(not(feature = "native"))]
    { posix::peek(path(name).as_bytes()) }
    #[cfg(feature = "native")]
    { native::get_file(name) }
}

/// Number of names in a directory that was created by the harness.
pub fn names(sub: &str) -> usize {
    #[cfg(not(feature = "native"))]
    { posix::names(path(&[sub, "/"].concat()).as_bytes()) }
    #[cfg(feature = "native")]
    { interpose::raw(|| std::fs::read_dir(path(sub)).expect("dir").count()) }
}

/// Table of harness entry points and the replay main.
#[macro_export]
macro_rules! harnesses {
    ($($n:ident),* $(,)?) => {
        static TABLE: &[(&str, extern "C" fn())] =
            &[$((stringify!($n), $n)),*];
        pub fn main() { $crate::replay_main(TABLE) }
    }
}

pub fn replay_main(table: &'static [(&'static str, extern "C" fn())]) {
    let n = std::env::args().nth(1).unwrap_or_default();
    for (k, f) in table {
        if *k == n {
            #[cfg(feature = "native")]
            native::start();
            f();
            #[cfg(feature = "native")]
            native::finish();
            return;
        }
    }
    panic!("no harness {}", n);
}
