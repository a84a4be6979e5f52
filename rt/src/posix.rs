//! Model of the POSIX calls used by std, tempfile and memmap. Files are
//! in-memory; content bytes may be symbolic, everything else is concrete.

use crate::env::{self, Act, Op};

type CInt = i32;
type Size = usize;
type Off = i64;

extern "C" {
    fn __errno_location() -> *mut CInt;
}

const ENOENT: CInt = 2;
const EBADF: CInt = 9;
const EEXIST: CInt = 17;
const EINVAL: CInt = 22;
const ENOSYS: CInt = 38;

/// Largest file the model holds.
pub const CAP: usize = 4 * 1024 * 1024;
const NAMES: usize = 8;
const FDS: usize = 32;

/// Bytes, with a hole of zeros that is `hole` long at `hat`.
struct Inode { data: Vec<u8>, hat: usize, hole: usize, name: [u8; 24],
               nlen: usize, refs: usize, dir: bool, mapped: bool }

impl Inode {
    fn size(&self) -> usize { self.data.len() + self.hole }

    /// Where in the data k bytes of the file are.
    fn within(&self, at: usize, k: usize) -> usize {
        if self.hole == 0 { return at; }
        if at >= self.hat + self.hole { return at - self.hole; }
        if at + k > self.hat { panic!("model file hole"); }
        at
    }

    /// Grow to n bytes with zeros. Maps keep the old backing store: they
    /// cover a prefix that is not written again.
    fn grow(&mut self, n: usize) {
        if n > CAP { panic!("model file capacity"); }
        if n > self.data.capacity() {
            let mut c = self.data.capacity();
            while c < n { c *= 2; }
            let mut d = Vec::with_capacity(c);
            d.extend_from_slice(&self.data);
            let old = std::mem::replace(&mut self.data, d);
            if self.mapped { std::mem::forget(old); }
        }
        let l = self.data.len();
        if n > l {
            unsafe {
                std::ptr::write_bytes(self.data.as_mut_ptr().add(l), 0, n - l);
                self.data.set_len(n);
            }
        }
    }
}

/// Open file, shared by duplicates of its descriptor.
#[derive(Clone, Copy)]
struct Fd { ino: usize, pos: usize, refs: usize, append: bool, rd: bool,
            wr: bool }

/// Descriptors refer to open files, by number plus one.
struct Os { ino: Vec<Inode>, files: [Fd; FDS], fds: [usize; FDS] }

static mut OS: Option<Os> = None;

#[allow(static_mut_refs)]
fn os() -> &'static mut Os {
    unsafe {
        if OS.is_none() {
            OS = Some(Os {
                ino: Vec::with_capacity(16),
                files: [Fd { ino: 0, pos: 0, refs: 0, append: false,
                             rd: false, wr: false }; FDS],
                fds: [0; FDS],
            });
        }
        OS.as_mut().unwrap()
    }
}

fn fail(e: CInt) -> isize {
    unsafe { *__errno_location() = e; }
    -1
}

unsafe fn cname(p: *const u8) -> ([u8; 24], usize) {
    let mut n = [0u8; 24];
    let mut i = 0;
    let mut len = 0;
    while *p.add(len) != 0 { len += 1; }
    if len > 0 && *p != b'/' {
        // relative to the directory of named files
        let mut p = p;
        while *p == b'.' && *p.add(1) == b'/' {
            p = p.add(2);
            len -= 2;
        }
        n[..3].copy_from_slice(b"/d/");
        if len > 21 { panic!("model name length"); }
        while i < len { n[i + 3] = *p.add(i); i += 1; }
        return (n, len + 3);
    }
    // keep the tail of long names: distinct names in one directory
    let s = if len > 24 { len - 24 } else { 0 };
    while s + i < len { n[i] = *p.add(s + i); i += 1; }
    (n, i)
}

fn lookup(n: &[u8; 24], l: usize) -> Option<usize> {
    os().ino.iter().position(|i| i.nlen == l && l > 0
                             && i.name[..l] == n[..l])
}

fn new_inode(name: [u8; 24], nlen: usize) -> usize {
    let o = os();
    o.ino.push(Inode { data: Vec::with_capacity(512), hat: 0, hole: 0, name,
                       nlen, refs: 0, dir: false, mapped: false });
    o.ino.len() - 1
}

fn new_fd(ino: usize, flags: CInt) -> CInt {
    let o = os();
    let acc = flags & 3;
    for i in 3..FDS {
        if o.files[i].refs == 0 {
            o.files[i] = Fd { ino, pos: 0, refs: 0,
                              append: flags & 0o2000 != 0,
                              rd: acc != 1, wr: acc != 0 };
            o.ino[ino].refs += 1;
            return refer(i);
        }
    }
    fail(24) as CInt
}

/// A further descriptor for an open file.
fn refer(file: usize) -> CInt {
    let o = os();
    for i in 3..FDS {
        if o.fds[i] == 0 {
            o.fds[i] = file + 1;
            o.files[file].refs += 1;
            return i as CInt;
        }
    }
    fail(24) as CInt
}

fn fd(f: CInt) -> Option<&'static mut Fd> {
    if f < 3 || f as usize >= FDS { return None; }
    let o = os();
    match o.fds[f as usize] {
        0 => None,
        k => Some(&mut o.files[k - 1]),
    }
}

/// Number of open descriptors.
pub fn open_fds() -> usize {
    os().fds.iter().filter(|f| **f != 0).count()
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: CInt, _mode: u32)
    -> CInt
{
    match env::outcome(Op::Open) {
        Act::Err(e) => return fail(e) as CInt,
        _ => {}
    }
    env::opening(path, flags);
    const TMPFILE: CInt = 0o20000000;
    if flags & TMPFILE != 0 {
        let i = new_inode([0; 24], 0);
        return new_fd(i, flags);
    }
    let (n, l) = cname(path);
    match lookup(&n, l) {
        Some(i) => {
            if flags & 0o100 != 0 && flags & 0o200 != 0 {
                return fail(EEXIST) as CInt;
            }
            if flags & 0o1000 != 0 {
                os().ino[i].data.clear();
                os().ino[i].hole = 0;
            }
            new_fd(i, flags)
        }
        None => {
            if flags & 0o100 == 0 { return fail(ENOENT) as CInt; }
            let i = new_inode(n, l);
            new_fd(i, flags)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn close(f: CInt) -> CInt {
    env::outcome(Op::Close);
    match fd(f) {
        Some(d) => {
            os().fds[f as usize] = 0;
            d.refs -= 1;
            if d.refs == 0 { os().ino[d.ino].refs -= 1; }
            0
        }
        None => fail(EBADF) as CInt,
    }
}

#[no_mangle]
pub unsafe extern "C" fn dup(f: CInt) -> CInt {
    match fd(f) {
        Some(_) => refer(os().fds[f as usize] - 1),
        None => fail(EBADF) as CInt,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(f: CInt, cmd: CInt, _arg: usize) -> CInt {
    match cmd {
        0 | 1030 => dup(f),
        1 => 1,
        _ => 0,
    }
}

fn get(ino: usize, at: usize, buf: *mut u8, n: Size) -> isize {
    let lim = match env::outcome(Op::Read) {
        Act::Err(e) => return fail(e),
        Act::Short(k) => k,
        Act::Full => n,
    };
    let i = &os().ino[ino];
    if at >= i.size() { return 0; }
    let mut k = i.size() - at;
    if n < k { k = n; }
    if lim < k { k = lim; }
    let d = i.data.as_ptr();
    if i.hole == 0 {
        unsafe { std::ptr::copy_nonoverlapping(d.add(at), buf, k); }
        return k as isize;
    }
    let mut c = 0;
    while c < k {
        let a = at + c;
        let mut m = k - c;
        let end = i.hat + i.hole;
        unsafe {
            if a >= end {
                std::ptr::copy_nonoverlapping(d.add(a - i.hole), buf.add(c), m);
            } else if a >= i.hat {
                if m > end - a { m = end - a; }
                std::ptr::write_bytes(buf.add(c), 0, m);
            } else {
                if m > i.hat - a { m = i.hat - a; }
                std::ptr::copy_nonoverlapping(d.add(a), buf.add(c), m);
            }
        }
        c += m;
    }
    k as isize
}

fn put_raw(ino: usize, at: usize, buf: *const u8, k: usize) {
    if k == 0 { return; }
    let i = &mut os().ino[ino];
    let at = i.within(at, k);
    if at + k > i.data.len() { i.grow(at + k); }
    unsafe {
        std::ptr::copy_nonoverlapping(buf, i.data.as_mut_ptr().add(at), k);
    }
}

fn put(ino: usize, at: usize, buf: *const u8, n: Size) -> isize {
    let lim = match env::outcome(Op::Write) {
        Act::Err(e) => return fail(e),
        Act::Short(k) => k,
        Act::Full => n,
    };
    let k = if lim < n { lim } else { n };
    let append = at >= os().ino[ino].size();
    if let Some(part) = env::hook_due(k, append) {
        put_raw(ino, at, buf, part);
        env::run_hook();
        put_raw(ino, at + part, unsafe { buf.add(part) }, k - part);
    } else {
        put_raw(ino, at, buf, k);
    }
    k as isize
}

#[no_mangle]
pub unsafe extern "C" fn read(f: CInt, buf: *mut u8, n: Size) -> isize {
    match fd(f) {
        Some(d) if d.rd => {
            let r = get(d.ino, d.pos, buf, n);
            if r > 0 { d.pos += r as usize; }
            r
        }
        _ => fail(EBADF),
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(f: CInt, buf: *mut u8, n: Size, at: Off)
    -> isize
{
    match fd(f) {
        Some(d) if d.rd => {
            if at < 0 { return fail(EINVAL); }
            get(d.ino, at as usize, buf, n)
        }
        _ => fail(EBADF),
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(f: CInt, buf: *const u8, n: Size) -> isize {
    if f == 1 || f == 2 {
        crate::stdio(f, std::slice::from_raw_parts(buf, n));
        return n as isize;
    }
    match fd(f) {
        Some(d) if d.wr => {
            let at = if d.append { os().ino[d.ino].size() } else { d.pos };
            let r = put(d.ino, at, buf, n);
            if r > 0 { d.pos = at + r as usize; }
            r
        }
        _ => fail(EBADF),
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(f: CInt, buf: *const u8, n: Size, at: Off)
    -> isize
{
    match fd(f) {
        Some(d) if d.wr => {
            if at < 0 { return fail(EINVAL); }
            put(d.ino, at as usize, buf, n)
        }
        _ => fail(EBADF),
    }
}

#[repr(C)]
pub struct Iov { p: *const u8, n: usize }

#[no_mangle]
pub unsafe extern "C" fn writev(f: CInt, iov: *const Iov, c: CInt) -> isize {
    // a short write after the first non-empty buffer is always allowed
    for i in 0..c as usize {
        let v = &*iov.add(i);
        if v.n > 0 { return write(f, v.p, v.n); }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn readv(f: CInt, iov: *const Iov, c: CInt) -> isize {
    for i in 0..c as usize {
        let v = &*iov.add(i);
        if v.n > 0 { return read(f, v.p as *mut u8, v.n); }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(f: CInt, off: Off, wh: CInt) -> Off {
    if let Act::Err(e) = env::outcome(Op::Seek) { return fail(e) as Off; }
    match fd(f) {
        Some(d) => {
            let base = match wh {
                0 => 0,
                1 => d.pos as Off,
                2 => os().ino[d.ino].size() as Off,
                _ => return fail(EINVAL) as Off,
            };
            let p = base.wrapping_add(off);
            if p < 0 { return fail(EINVAL) as Off; }
            d.pos = p as usize;
            p
        }
        None => fail(EBADF) as Off,
    }
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(f: CInt, n: Off) -> CInt {
    if let Act::Err(e) = env::outcome(Op::Trunc) { return fail(e) as CInt; }
    match fd(f) {
        Some(d) => {
            let i = &mut os().ino[d.ino];
            let mut n = n as usize;
            if i.hole > 0 {
                let end = i.hat + i.hole;
                if n < end {
                    i.hole = if n > i.hat { n - i.hat } else { 0 };
                }
                n -= i.hole;
            }
            if n < i.data.len() { i.data.truncate(n); } else { i.grow(n); }
            0
        }
        None => fail(EBADF) as CInt,
    }
}

/// x86_64 struct stat prefix: dev ino nlink mode uid gid pad rdev size ...
unsafe fn fill_stat(ino: usize, st: *mut u8) {
    std::ptr::write_bytes(st, 0, 144);
    let o = os();
    *(st as *mut u64).add(1) = ino as u64 + 1;
    *(st as *mut u64).add(2) = 1;
    *(st as *mut u32).add(6) = if o.ino[ino].dir { 0o040755 }
                               else { 0o100644 };
    *(st as *mut i64).add(6) = o.ino[ino].size() as i64;
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(f: CInt, st: *mut u8) -> CInt {
    if let Act::Err(e) = env::outcome(Op::Stat) { return fail(e) as CInt; }
    match fd(f) {
        Some(d) => { fill_stat(d.ino, st); 0 }
        None => fail(EBADF) as CInt,
    }
}

#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const u8, st: *mut u8) -> CInt {
    if let Act::Err(e) = env::outcome(Op::Stat) { return fail(e) as CInt; }
    let (n, l) = cname(path);
    match lookup(&n, l) {
        Some(i) => { fill_stat(i, st); 0 }
        None => fail(ENOENT) as CInt,
    }
}

#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const u8, st: *mut u8) -> CInt {
    stat64(path, st)
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const u8, _b: *mut u8) -> *mut u8 {
    extern "C" { fn malloc(n: usize) -> *mut u8; }
    let (n, l) = cname(path);
    if lookup(&n, l).is_none() {
        fail(ENOENT);
        return std::ptr::null_mut();
    }
    let p = malloc(l + 1);
    for i in 0..l { *p.add(i) = n[i]; }
    *p.add(l) = 0;
    p
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const u8) -> CInt {
    let (n, l) = cname(path);
    match lookup(&n, l) {
        Some(i) => { os().ino[i].nlen = 0; 0 }
        None => fail(ENOENT) as CInt,
    }
}

#[no_mangle]
pub unsafe extern "C" fn rename(from: *const u8, to: *const u8) -> CInt {
    let ((n, l), (m, k)) = (cname(from), cname(to));
    match lookup(&n, l) {
        Some(i) => {
            if let Some(j) = lookup(&m, k) {
                if j != i { os().ino[j].nlen = 0; }
            }
            os().ino[i].name = m;
            os().ino[i].nlen = k;
            0
        }
        None => fail(ENOENT) as CInt,
    }
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const u8, _mode: u32) -> CInt {
    let (n, l) = cname(path);
    if lookup(&n, l).is_some() { return fail(EEXIST) as CInt; }
    let i = new_inode(n, l);
    os().ino[i].dir = true;
    0
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const u8) -> CInt { unlink(path) }

/// Copies within the kernel are refused, which has the caller read and write.
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_o: CInt, _i: CInt, _at: *mut Off,
                                    _n: Size) -> isize { fail(ENOSYS) }
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    _i: CInt, _a: *mut Off, _o: CInt, _b: *mut Off, _n: Size, _f: u32)
    -> isize { fail(ENOSYS) }
#[no_mangle]
pub unsafe extern "C" fn splice(
    _i: CInt, _a: *mut Off, _o: CInt, _b: *mut Off, _n: Size, _f: u32)
    -> isize { fail(ENOSYS) }
#[no_mangle]
pub unsafe extern "C" fn flock(_f: CInt, _o: CInt) -> CInt { 0 }
#[no_mangle]
pub unsafe extern "C" fn fchmod(_f: CInt, _m: u32) -> CInt { 0 }
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(_f: CInt, _a: Off, _n: Off, _v: CInt)
    -> CInt { 0 }
#[no_mangle]
pub unsafe extern "C" fn isatty(_f: CInt) -> CInt { 0 }
#[no_mangle]
pub unsafe extern "C" fn getpid() -> CInt { 1 }
#[no_mangle]
pub unsafe extern "C" fn nanosleep(_t: *const i64, _r: *mut i64) -> CInt { 0 }
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_c: CInt, _f: CInt, _t: *const i64,
                                         _r: *mut i64) -> CInt { 0 }

#[no_mangle]
pub unsafe extern "C" fn mmap64(_a: *mut u8, n: Size, _p: CInt, _fl: CInt,
                                f: CInt, off: Off) -> *mut u8 {
    if let Act::Err(e) = env::outcome(Op::Map) {
        fail(e);
        return usize::MAX as *mut u8;
    }
    match fd(f) {
        Some(d) => {
            // shared view of the file; within the last page, zeros
            if n == 0 {
                fail(EINVAL);
                return usize::MAX as *mut u8;
            }
            let i = &mut os().ino[d.ino];
            let off = i.within(off as usize, n);
            let end = off + n;
            let l = i.data.len();
            i.grow((end + 4095) / 4096 * 4096);
            i.data.truncate(l);
            i.mapped = true;
            let p = i.data.as_mut_ptr().add(off);
            env::mapped(p as usize, true);
            p
        }
        None => {
            fail(EBADF);
            usize::MAX as *mut u8
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut u8, n: Size, p: CInt, fl: CInt,
                              f: CInt, off: Off) -> *mut u8 {
    mmap64(a, n, p, fl, f, off)
}

#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut u8, _n: Size) -> CInt {
    env::mapped(a as usize, false);
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_madvise(a: *mut u8, _n: Size, _v: CInt) -> CInt
{
    // objects start at a page boundary
    if (a as usize) & 4095 != 0 { EINVAL } else { 0 }
}
#[no_mangle]
pub unsafe extern "C" fn madvise(_a: *mut u8, _n: Size, _v: CInt) -> CInt { 0 }
#[no_mangle]
pub unsafe extern "C" fn fsync(_f: CInt) -> CInt { 0 }
#[no_mangle]
pub unsafe extern "C" fn fdatasync(_f: CInt) -> CInt { 0 }

#[no_mangle]
pub unsafe extern "C" fn sysconf(n: CInt) -> i64 {
    match n { 30 => 4096, 84 => 4, _ => -1 }
}

#[no_mangle]
pub unsafe extern "C" fn getenv(_n: *const u8) -> *const u8 {
    std::ptr::null()
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(_b: *mut u8, _n: Size) -> *mut u8 {
    fail(ENOSYS);
    std::ptr::null_mut()
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: Size, _f: u32) -> isize {
    for i in 0..n { *b.add(i) = 0x5a; }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize,
                                 d: usize) -> i64 {
    match n {
        318 => getrandom(a as *mut u8, b, c as u32) as i64,
        186 => 1,  // gettid
        202 => {
            // futex: nobody else runs, so a wait on the expected value
            // does not end, except by its time limit
            if b & 0x7f == 0 || b & 0x7f == 9 {
                if *(a as *const u32) != c as u32 { return fail(11) as i64; }
                if d != 0 { return fail(110) as i64; }
                crate::prim::sx_park();
            }
            0
        }
        _ => fail(ENOSYS) as i64,
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_c: CInt, ts: *mut i64) -> CInt {
    *ts = 1_600_000_000;
    *ts.add(1) = 0;
    0
}

static mut KEYS: [usize; 32] = [0; 32];
static mut NKEYS: u32 = 1;

#[no_mangle]
pub unsafe extern "C" fn pthread_key_create(k: *mut u32, _d: usize) -> CInt {
    *k = NKEYS;
    NKEYS += 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_key_delete(_k: u32) -> CInt { 0 }
#[no_mangle]
pub unsafe extern "C" fn pthread_setspecific(k: u32, v: usize) -> CInt {
    KEYS[k as usize & 31] = v;
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_getspecific(k: u32) -> usize {
    KEYS[k as usize & 31]
}

static mut NTHREADS: usize = 1;
static mut ENDED: u64 = 0;

/// A new thread runs up to its first wait, and is not resumed.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut usize, _a: usize, f: extern "C" fn(usize) -> usize, arg: usize)
    -> CInt
{
    NTHREADS += 1;
    *t = NTHREADS;
    if crate::prim::sx_guard(f, arg, 1) == 0 && NTHREADS < 64 {
        ENDED |= 1 << NTHREADS;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(_t: usize) -> CInt { 0 }
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: usize, _r: usize) -> CInt {
    if ENDED >> (t & 63) & 1 == 0 { crate::prim::sx_park(); }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_init(_a: usize) -> CInt { 0 }
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_destroy(_a: usize) -> CInt { 0 }
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_setstacksize(_a: usize, _n: usize)
    -> CInt { 0 }
#[no_mangle]
pub unsafe extern "C" fn dlsym(_h: usize, _n: *const u8) -> usize { 0 }
#[no_mangle]
pub unsafe extern "C" fn prctl(_o: CInt, _a: usize) -> CInt { 0 }
#[no_mangle]
pub unsafe extern "C" fn pthread_setname_np(_t: usize, _n: *const u8) -> CInt
{ 0 }
#[no_mangle]
pub unsafe extern "C" fn sigaltstack(_a: usize, _o: usize) -> CInt { -1 }
#[no_mangle]
pub unsafe extern "C" fn pthread_self() -> usize { 1 }
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> CInt { 0 }

#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(_e: CInt, b: *mut u8, n: Size) -> CInt
{
    if n > 1 { *b = b'E'; *b.add(1) = 0; }
    0
}

// ---- file access for harnesses (outside of the fault plan) ----

/// Number of names that start as given.
pub fn names(start: &[u8]) -> usize {
    os().ino.iter().filter(|i| i.nlen > start.len()
                           && i.name[..start.len()] == *start).count()
}

/// Content of the file behind a path.
pub fn peek(name: &[u8]) -> Vec<u8> {
    let mut n = [0u8; 24];
    let s = if name.len() > 24 { name.len() - 24 } else { 0 };
    let t = &name[s..];
    n[..t.len()].copy_from_slice(t);
    match lookup(&n, t.len()) {
        Some(i) => os().ino[i].data.clone(),
        None => Vec::new(),
    }
}

/// Create or replace a file.
pub fn poke(name: &[u8], data: &[u8]) {
    let mut n = [0u8; 24];
    let s = if name.len() > 24 { name.len() - 24 } else { 0 };
    let t = &name[s..];
    n[..t.len()].copy_from_slice(t);
    let i = match lookup(&n, t.len()) {
        Some(i) => i,
        None => new_inode(n, t.len()),
    };
    os().ino[i].data.clear();
    os().ino[i].hole = 0;
    put_raw(i, 0, data.as_ptr(), data.len());
}

/// Make a hole in a file.
pub fn widen(name: &[u8], at: usize, hole: usize) {
    let mut n = [0u8; 24];
    n[..name.len()].copy_from_slice(name);
    if let Some(i) = lookup(&n, name.len()) {
        os().ino[i].hat = at;
        os().ino[i].hole = hole;
    }
}

#[allow(dead_code)]
const _: usize = NAMES;
