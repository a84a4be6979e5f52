//! Replay runtime: inputs from the file named by SX_REPLAY.
//! Format, one item per line: `<width> <value>`.

use std::sync::Mutex;

struct Replay { ins: Vec<(u16, u64)>, pos: usize, outs: Vec<u64> }

static R: Mutex<Replay> = Mutex::new(Replay {
    ins: Vec::new(), pos: 0, outs: Vec::new() });

pub fn dir() -> String {
    std::env::var("SX_DIR").expect("SX_DIR")
}

pub fn put_file(name: &str, data: &[u8]) {
    crate::interpose::raw(|| {
        std::fs::write(crate::path(name), data).expect("put_file");
    })
}

pub fn put_sparse(name: &str, before: &[u8], hole: u64, after: &[u8]) {
    use std::os::unix::fs::FileExt;
    crate::interpose::raw(|| {
        std::fs::write(crate::path(name), before).expect("put_sparse");
        let f = std::fs::OpenOptions::new().write(true)
            .open(crate::path(name)).expect("put_sparse");
        let at = before.len() as u64 + hole;
        f.set_len(at).expect("put_sparse");
        f.write_all_at(after, at).expect("put_sparse");
    })
}

pub fn get_file(name: &str) -> Vec<u8> {
    crate::interpose::raw(|| {
        std::fs::read(crate::path(name)).unwrap_or_default()
    })
}

pub fn start() {
    let p = std::env::var("SX_REPLAY").expect("SX_REPLAY");
    let s = std::fs::read_to_string(p).expect("replay file");
    let mut r = R.lock().unwrap();
    for l in s.lines() {
        let mut i = l.split_whitespace();
        if let (Some(w), Some(v)) = (i.next(), i.next()) {
            r.ins.push((w.parse().unwrap(), v.parse().unwrap()));
        }
    }
}

fn quit(code: i32, msg: &str) -> ! {
    eprintln!("sxrt: {}", msg);
    extern "C" { fn _exit(c: i32) -> !; }
    unsafe { _exit(code) }
}

fn any(w: u16) -> u64 {
    let mut r = R.lock().unwrap();
    let k = r.pos;
    r.pos += 1;
    match r.ins.get(k) {
        Some((x, v)) if *x == w => *v,
        // a violating path may end before drawing all of its inputs
        Some(_) => quit(3, "input width mismatch"),
        None => quit(3, "inputs exhausted"),
    }
}

pub unsafe fn sx_any_u8() -> u8 { any(8) as u8 }
pub unsafe fn sx_any_u16() -> u16 { any(16) as u16 }
pub unsafe fn sx_any_u32() -> u32 { any(32) as u32 }
pub unsafe fn sx_any_u64() -> u64 { any(64) }
pub unsafe fn sx_assume(c: bool) { if !c { quit(4, "assumption failed"); } }
pub unsafe fn sx_check(c: bool, p: *const u8, n: usize) {
    if !c {
        let m = std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap();
        println!("CHECK-FAIL {}", m);
        quit(1, m);
    }
}
pub unsafe fn sx_reach(_id: u32) {}
pub unsafe fn sx_out(v: u64) { R.lock().unwrap().outs.push(v); }
pub unsafe fn sx_fold(p: *const u8, n: usize) {
    let mut r = R.lock().unwrap();
    r.outs.push(n as u64);
    for i in 0..n { r.outs.push(*p.add(i) as u64); }
}
pub unsafe fn sx_kill() -> ! { quit(4, "killed") }
pub unsafe fn sx_conc(v: u64) -> u64 { v }

pub unsafe fn sx_param(i: u32, d: u64) -> u64 {
    std::env::var(format!("SX_P{}", i)).ok()
        .and_then(|v| v.parse().ok()).unwrap_or(d)
}

/// Print the observations.
pub fn finish() {
    let r = R.lock().unwrap();
    let l: Vec<String> = r.outs.iter().map(|x| x.to_string()).collect();
    crate::interpose::raw(|| println!("OUTS {}", l.join(" ")));
}

/// Whether f(arg), run in a child process, does not return.
pub fn dies(f: extern "C" fn(usize) -> usize, arg: usize) -> bool {
    extern "C" {
        fn fork() -> i32;
        fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
        fn _exit(c: i32) -> !;
    }
    unsafe {
        let p = fork();
        if p == 0 {
            f(arg);
            _exit(0);
        }
        let mut s = 0;
        waitpid(p, &mut s, 0);
        s != 0
    }
}

/// Run f(arg) in a child process with its own arguments, output to a file.
pub fn child(n: i32, v: *const *const u8,
             f: extern "C" fn(usize) -> usize, arg: usize) -> i32
{
    type Init = extern "C" fn(i32, *const *const u8, *const *const u8);
    extern "C" {
        fn fork() -> i32;
        fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
        fn _exit(c: i32) -> !;
        fn dup2(a: i32, b: i32) -> i32;
        static environ: *const *const u8;
        static __init_array_start: [Init; 0];
        static __init_array_end: [Init; 0];
    }
    let out = [1, 2].map(|k| format!("{}/../child-{}", dir(), k));
    unsafe {
        let p = fork();
        if p == 0 {
            crate::interpose::CHILD.store(
                true, std::sync::atomic::Ordering::Relaxed);
            crate::interpose::raw(|| {
                use std::os::unix::io::IntoRawFd;
                for k in 0..2 {
                    let o = std::fs::File::create(&out[k])
                        .expect("child output");
                    dup2(o.into_raw_fd(), k as i32 + 1);
                }
                // std takes the arguments in its init function
                let mut i = __init_array_start.as_ptr();
                while i != __init_array_end.as_ptr() {
                    (*i)(n, v, environ);
                    i = i.add(1);
                }
            });
            _exit(f(arg) as i32);
        }
        let mut s = 0;
        waitpid(p, &mut s, 0);
        for k in 0..2 {
            let b = crate::interpose::raw(
                || std::fs::read(&out[k]).expect("child output"));
            crate::stdio(k as i32 + 1, &b);
        }
        if s & 0x7f != 0 { 101 } else { s >> 8 & 255 }
    }
}
