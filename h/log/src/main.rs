//! The logger of the command line program and of tests.

use log::Level;
use sxrt::*;

static mut IN: (u32, usize, usize, [u8; 2]) = (0, 0, 0, [0; 2]);

const TARGETS: [(&str, bool); 9] = [
    ("body_image", true), ("body_image::x", true), ("body_image_futio", true),
    ("barc", true), ("barc::compress", true), ("blocking_permit", true),
    ("hyper::client", false), ("mio", false), ("my_barc", false),
];

const LEVELS: [Level; 5] = [Level::Error, Level::Warn, Level::Info,
                            Level::Debug, Level::Trace];

#[no_mangle]
pub extern "C" fn h_p01_log() {
    let level = any_u32();
    let (t, l) = (pick(9) as usize, pick(5) as usize);
    let text = any_bytes::<2>();
    assume((text[0] < 128) & (text[1] < 128));
    unsafe { IN = (level, t, l, text); }
    let r = process(&["t"], || {
        let (level, t, l, text) = unsafe { IN };
        if piccolog::setup_logger(level).is_err() { return 1; }
        let s = unsafe { std::str::from_utf8_unchecked(&text) };
        log::log!(target: TARGETS[t].0, LEVELS[l], "<{}>", s);
        // a second logger is refused
        if piccolog::setup_logger(level).is_ok() { return 2; }
        0
    });
    check(r == 0, "logger set up once");
    let (name, local) = TARGETS[t];
    let max = if level == 0 { 2 } else if level < 3 { 3 } else { 4 };
    let shown = (l <= max) & ((level != 1) | local | (l <= 2));
    check(shown == !stderr().is_empty(), "shown by level and origin");
    check(stdout().is_empty(), "standard output is left alone");
    if shown {
        let e = stderr();
        let has = |p: &[u8]| e.windows(p.len()).any(|w| w == p);
        check(e[e.len() - 1] == b'\n', "one line each");
        check(has(name.as_bytes()), "origin shown");
        check(has(LEVELS[l].as_str().as_bytes()), "level shown");
        let n = e.len();
        check(eq(&e[n - 5..n - 1], &[b'<', text[0], text[1], b'>']),
              "message shown");
        reach(1);
    } else {
        reach(2);
    }
    out(shown as u64);
}

harnesses!(h_p01_log);
