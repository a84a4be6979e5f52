//! Real system calls under the fault plan: these definitions take precedence
//! over the C library's for calls made by the executable.

use crate::env::{self, Act, Op};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}

thread_local!(static RAW: Cell<bool> = const { Cell::new(false) });

/// Set in a child process, with output of its own.
pub static CHILD: AtomicBool = AtomicBool::new(false);

/// Run f with plain system calls.
pub fn raw<T>(f: impl FnOnce() -> T) -> T {
    let old = RAW.with(|r| r.replace(true));
    let t = f();
    RAW.with(|r| r.set(old));
    t
}

/// File descriptors the plan applies to: opened through this process image
/// after start (regular files only).
static FILES: [AtomicU64; 4] = [const { AtomicU64::new(0) }; 4];

fn tracked(fd: i32) -> bool {
    if fd < 3 || fd >= 256 || RAW.with(|r| r.get()) { return false; }
    FILES[fd as usize / 64].load(Relaxed) & (1 << (fd % 64)) != 0
}

fn track(fd: i32, on: bool) {
    if fd < 0 || fd >= 256 { return; }
    let m = 1u64 << (fd % 64);
    if on { FILES[fd as usize / 64].fetch_or(m, Relaxed); }
    else { FILES[fd as usize / 64].fetch_and(!m, Relaxed); }
}

pub fn open_fds() -> usize {
    FILES.iter().map(|f| f.load(Relaxed).count_ones() as usize).sum()
}

unsafe fn fail(e: i32) -> i64 { *__errno_location() = e; -1 }

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if !RAW.with(|r| r.get()) {
        if let Act::Err(e) = env::outcome(Op::Open) { return fail(e) as i32; }
    }
    let fd = syscall(2, path, flags, mode) as i32;
    if !RAW.with(|r| r.get()) {
        if fd >= 0 { env::opening(path, flags); }
        track(fd, true);
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    track(fd, false);
    syscall(3, fd) as i32
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    let r = syscall(72, fd, cmd, arg) as i32;
    if (cmd == 0 || cmd == 1030) && tracked(fd) { track(r, true); }
    r
}

unsafe fn rd(n: usize) -> Result<usize, i32> {
    match env::outcome(Op::Read) {
        Act::Err(e) => Err(e),
        Act::Short(k) => Ok(std::cmp::min(k, n)),
        Act::Full => Ok(n),
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    if !tracked(fd) { return syscall(0, fd, b, n) as isize; }
    match rd(n) {
        Err(e) => fail(e) as isize,
        Ok(n) => syscall(0, fd, b, n) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, b: *mut u8, n: usize, at: i64)
    -> isize
{
    if !tracked(fd) { return syscall(17, fd, b, n, at) as isize; }
    match rd(n) {
        Err(e) => fail(e) as isize,
        Ok(n) => syscall(17, fd, b, n, at) as isize,
    }
}

/// Whether position at is at or after the end of the file.
unsafe fn at_end(fd: i32, at: i64) -> bool {
    let mut st = [0u64; 18];
    syscall(5, fd, st.as_mut_ptr());
    at as u64 >= st[6]
}

unsafe fn wr(n: usize, append: bool, w: impl Fn(usize, usize) -> isize) -> isize {
    let k = match env::outcome(Op::Write) {
        Act::Err(e) => return fail(e) as isize,
        Act::Short(k) => std::cmp::min(k, n),
        Act::Full => n,
    };
    if let Some(part) = env::hook_due(k, append) {
        if part > 0 { w(0, part); }
        env::run_hook();
        if k > part { w(part, k - part); }
        k as isize
    } else {
        w(0, k)
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if (fd == 1 || fd == 2) && !RAW.with(|r| r.get())
        && !CHILD.load(Relaxed)
    {
        crate::stdio(fd, std::slice::from_raw_parts(b, n));
        if fd == 2 { return syscall(1, fd, b, n) as isize; }
        return n as isize;
    }
    if !tracked(fd) { return syscall(1, fd, b, n) as isize; }
    wr(n, at_end(fd, syscall(8, fd, 0, 1)), |o, k| syscall(1, fd, b.add(o), k) as isize)
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, b: *const u8, n: usize, at: i64)
    -> isize
{
    if !tracked(fd) { return syscall(18, fd, b, n, at) as isize; }
    wr(n, at_end(fd, at),
       |o, k| syscall(18, fd, b.add(o), k, at + o as i64) as isize)
}

#[repr(C)]
pub struct Iov { p: *const u8, n: usize }

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const Iov, c: i32) -> isize {
    for i in 0..c as usize {
        let v = &*iov.add(i);
        if v.n > 0 { return write(fd, v.p, v.n); }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const Iov, c: i32) -> isize {
    for i in 0..c as usize {
        let v = &*iov.add(i);
        if v.n > 0 { return read(fd, v.p as *mut u8, v.n); }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, wh: i32) -> i64 {
    if tracked(fd) {
        if let Act::Err(e) = env::outcome(Op::Seek) { return fail(e); }
    }
    syscall(8, fd, off, wh)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if tracked(fd) {
        if let Act::Err(e) = env::outcome(Op::Trunc) { return fail(e) as i32; }
    }
    syscall(77, fd, n) as i32
}

#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut u8, n: usize, p: i32, fl: i32, fd: i32,
                                off: i64) -> *mut u8 {
    if fd >= 0 && tracked(fd) {
        if let Act::Err(e) = env::outcome(Op::Map) {
            fail(e);
            return usize::MAX as *mut u8;
        }
    }
    let r = syscall(9, a, n, p, fl, fd, off);
    if fd >= 0 && r != -1 { env::mapped(r as usize, true); }
    r as *mut u8
}

#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut u8, n: usize) -> i32 {
    env::mapped(a as usize, false);
    syscall(11, a, n) as i32
}

#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut u8, n: usize, p: i32, fl: i32, fd: i32,
                              off: i64) -> *mut u8 {
    mmap64(a, n, p, fl, fd, off)
}

/// Copies within the kernel are refused, as in the model: files are read and
/// written under the plan.
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_o: i32, _i: i32, _at: *mut i64, _n: usize)
    -> isize { fail(38) as isize }

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    _i: i32, _a: *mut i64, _o: i32, _b: *mut i64, _n: usize, _f: u32)
    -> isize { fail(38) as isize }

#[no_mangle]
pub unsafe extern "C" fn splice(
    _i: i32, _a: *mut i64, _o: i32, _b: *mut i64, _n: usize, _f: u32)
    -> isize { fail(38) as isize }
