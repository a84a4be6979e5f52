//! Harnesses for the command line program: its own main function is run as
//! a process on archives prepared here.

use barc::*;
use body_image::{BodyImage, BodySink, Recorded, RequestRecorded, Tunables};
use http::header::{HeaderMap, HeaderName, HeaderValue};
use std::io::Read;
use sxrt::*;

trait Code { fn code(self) -> i32; }
impl Code for () { fn code(self) -> i32 { 0 } }
impl<E> Code for Result<(), E> {
    fn code(self) -> i32 { if self.is_ok() { 0 } else { 1 } }
}
impl Code for std::process::ExitCode {
    fn code(self) -> i32 {
        if self == std::process::ExitCode::SUCCESS { 0 } else { 1 }
    }
}

fn barc(args: &[&str]) -> i32 {
    process(args, || crate::program_main().code())
}

type Headers = Vec<(&'static str, Vec<u8>)>;

#[derive(Clone)]
struct Rec { meta: Headers, qh: Headers, qb: Vec<u8>, sh: Headers,
             sb: Vec<u8> }

/// The kth record of a file: distinct parts, some of them empty, with bytes
/// of any value in the bodies.
fn record(k: usize, data: &[u8]) -> Rec {
    let v = |s: &str| s.as_bytes().to_vec();
    match k {
        0 => Rec {
            meta: vec![("url", v("http://h/0")), ("method", v("GET"))],
            qh: vec![("x-q", v("q0"))],
            qb: Vec::new(),
            sh: vec![("content-type", v("text/plain")), ("x-s", v("s0"))],
            sb: data[..2].to_vec(),
        },
        1 => Rec {
            meta: vec![("url", v("http://h/1"))],
            qh: Vec::new(),
            qb: data[2..4].to_vec(),
            sh: vec![("x-s", v("s1"))],
            sb: Vec::new(),
        },
        _ => Rec {
            meta: vec![("url", v("http://h/2"))],
            qh: vec![("x-q", v("q2"))],
            qb: data[4..5].to_vec(),
            sh: vec![("x-s", v("s2"))],
            sb: data[5..8].to_vec(),
        },
    }
}

/// A record that a compression strategy applies to.
fn large() -> Rec {
    let mut r = record(0, b"????????");
    r.meta.push(("response-decoded", b"identity".to_vec()));
    r.sb = Vec::with_capacity(6000);
    for i in 0..6000u32 { r.sb.push(b'a' + (i / 7 % 5) as u8); }
    r
}

fn hmap(l: &Headers) -> HeaderMap {
    let mut m = HeaderMap::new();
    for (k, v) in l {
        m.append(HeaderName::from_static(k),
                 HeaderValue::from_bytes(v).expect("value"));
    }
    m
}

fn body(b: &[u8]) -> BodyImage {
    let mut s = BodySink::with_ram(b.len() as u64 + 1);
    s.write_all(b).expect("write");
    s.prepare().expect("prepare")
}

/// Write the records, giving their offsets and the end.
fn archive(name: &str, recs: &[Rec], z: u8) -> Vec<u64> {
    let f = BarcFile::new(path(name));
    let mut w = f.writer().expect("writer");
    let mut offs = Vec::with_capacity(4);
    for r in recs {
        let r = Record {
            rec_type: RecordType::Dialog,
            meta: hmap(&r.meta),
            req_headers: hmap(&r.qh),
            req_body: body(&r.qb),
            res_headers: hmap(&r.sh),
            res_body: body(&r.sb),
        };
        offs.push(match z {
            0 => w.write(&r, &NoCompressStrategy::default()),
            1 => w.write(&r, &GzipCompressStrategy::default().set_min_len(0)),
            _ => w.write(&r, &BrotliCompressStrategy::default()
                         .set_min_len(0)),
        }.expect("write"));
    }
    drop(w);
    offs.push(get_file(name).len() as u64);
    offs
}

fn same_headers(m: &HeaderMap, l: &Headers) -> bool {
    if m.len() != l.len() { return false; }
    for (k, v) in l {
        match m.get(*k) {
            Some(x) => if x.as_bytes() != &v[..] { return false; },
            None => return false,
        }
    }
    true
}

fn same_body(b: &BodyImage, want: &[u8]) -> bool {
    let mut v = Vec::with_capacity(want.len() + 1);
    b.reader().read_to_end(&mut v).expect("read");
    v.len() == want.len() && eq(&v, want)
}

/// The file holds exactly these records.
fn holds(name: &str, recs: &[Rec]) {
    let t = Tunables::new();
    let f = BarcFile::new(path(name));
    let mut r = match f.reader() {
        Ok(r) => r,
        Err(_) => {
            check(false, "output not there");
            return;
        }
    };
    for w in recs {
        match r.read(&t) {
            Ok(Some(x)) => {
                check(x.rec_type() == RecordType::Dialog, "record type");
                check(same_headers(x.meta(), &w.meta), "meta");
                check(same_headers(x.req_headers(), &w.qh),
                      "request headers");
                check(same_body(x.req_body(), &w.qb), "request body");
                check(same_headers(x.res_headers(), &w.sh),
                      "response headers");
                check(same_body(x.res_body(), &w.sb), "response body");
            }
            Ok(None) => check(false, "record missing"),
            Err(_) => check(false, "record not readable"),
        }
    }
    match r.read(&t) {
        Ok(None) => {}
        _ => check(false, "additional record"),
    }
}

/// Selection of records: the options, and the indices selected.
fn selection(args: &mut Vec<String>, offs: &[u64]) -> (usize, usize) {
    let n = offs.len() - 1;
    let (mut from, mut count) = (0, n);
    let push = |args: &mut Vec<String>, short: &str, long: &str, v: String,
                form: u8| {
        match form {
            0 => { args.push(short.into()); args.push(v); }
            1 => { args.push(long.into()); args.push(v); }
            _ => { args.push(format!("{}={}", long, v)); }
        }
    };
    match pick(4) {
        0 => {}
        1 => {
            from = pick(n as u8 + 3) as usize;
            // one more stands for the largest
            let v = if from < n + 2 { from as u64 } else { u64::MAX };
            push(args, "-i", "--index", format!("{}", v), pick(3));
        }
        2 => {
            from = pick(n as u8 + 1) as usize;
            let v = if pick(2) == 0 { format!("{}", offs[from]) }
                    else { format!("{:04}", offs[from]) };
            push(args, "-o", "--offset", v, pick(3));
        }
        _ => {
            from = pick(n as u8 + 1) as usize;
            push(args, "-o", "--offset", format!("{:#x}", offs[from]),
                 pick(3));
        }
    }
    if pick(2) == 1 {
        count = pick(n as u8 + 3) as usize;
        if count == n + 2 { count = 5_000_000_000; }
        push(args, "-c", "--count", format!("{}", count), pick(3));
    }
    let from = if from > n { n } else { from };
    let end = if count > n - from { n } else { from + count };
    (from, end)
}

fn run(args: &[String]) -> i32 {
    let v: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    barc(&v)
}

fn head(out: &mut Vec<u8>, l: &Headers) {
    for (k, v) in l {
        out.extend_from_slice(k.as_bytes());
        out.extend_from_slice(b": ");
        out.extend_from_slice(v);
        out.extend_from_slice(b"\r\n");
    }
    if !l.is_empty() { out.extend_from_slice(b"\r\n"); }
}

fn text(out: &mut Vec<u8>, b: &[u8]) {
    out.extend_from_slice(b);
    if !b.is_empty() { out.extend_from_slice(b"\r\n"); }
}

/// What is printed for a record.
fn printed(out: &mut Vec<u8>, file: &str, off: u64, r: &Rec, parts: u8) {
    let s = format!("====== file {:-<38} offset {:#012x} ======\n",
                    file, off);
    out.extend_from_slice(s.as_bytes());
    if parts & 1 != 0 { head(out, &r.meta); }
    if parts & 2 != 0 { head(out, &r.qh); }
    if parts & 4 != 0 { text(out, &r.qb); }
    if parts & 8 != 0 { head(out, &r.sh); }
    if parts & 16 != 0 { text(out, &r.sb); }
}

const PARTS: [&str; 5] = ["--meta", "--req-head", "--req-body", "--res-head",
                          "--res-body"];

fn records(n: usize) -> Vec<Rec> {
    let data = any_bytes::<8>();
    let mut v = Vec::with_capacity(4);
    for k in 0..n { v.push(record(k, &data)); }
    v
}

fn fixed(n: usize) -> Vec<Rec> {
    (0..n).map(|k| record(k, b"a\nbc\0def")).collect()
}

#[no_mangle]
pub extern "C" fn h_l01_cat() {
    let n = param(0, 3) as usize;
    let recs = records(n);
    let offs = archive("a", &recs, 0);
    let mut args: Vec<String> = vec!["barc".into(), "cat".into()];
    let (from, end) = selection(&mut args, &offs);
    args.push("a".into());
    let before = get_file("a");
    let r = run(&args);
    check(r == 0, "exit code");
    let mut want = Vec::with_capacity(1024);
    for k in from..end { printed(&mut want, "a", offs[k], &recs[k], 31); }
    check(stdout().len() == want.len() && eq(stdout(), &want),
          "records printed");
    check(eq(&before, &get_file("a")), "input file changed");
    if from < end { reach(1) } else { reach(2) }
    out_bytes(stdout());
}

/// Selected parts, of several files, compressed or not.
#[no_mangle]
pub extern "C" fn h_l01_parts() {
    let z = pick(3);
    let recs = if z == 0 { records(3) } else { fixed(3) };
    let oa = archive("a", &recs[..2], z);
    let two = pick(3);
    // the second file may be the same one again
    let other = ["", "b", "a"][two as usize];
    let two = two != 0;
    let ob = archive("b", &recs[2..], 0);
    let mut args: Vec<String> = vec!["barc".into(), "cat".into()];
    if two && pick(2) == 1 { args.push("a".into()); args.push(other.into()); }
    let mut parts = pick(32);
    for i in 0..5 {
        if parts & 1 << i != 0 { args.push(PARTS[i].into()); }
    }
    if parts == 0 { parts = 31; }
    if args.len() < 3 || !args.contains(&"a".into()) {
        args.push("a".into());
        if two { args.push(other.into()); }
    }
    check(run(&args) == 0, "exit code");
    let mut want = Vec::with_capacity(1024);
    for k in 0..2 { printed(&mut want, "a", oa[k], &recs[k], parts); }
    if other == "b" { printed(&mut want, "b", ob[0], &recs[2], parts); }
    if other == "a" {
        for k in 0..2 { printed(&mut want, "a", oa[k], &recs[k], parts); }
    }
    check(stdout().len() == want.len() && eq(stdout(), &want),
          "parts printed");
    if two { reach(1) } else { reach(2) }
    out_bytes(stdout());
}

#[no_mangle]
pub extern "C" fn h_l02_cp() {
    let n = param(0, 3) as usize;
    let recs = records(n);
    let offs = archive("a", &recs, 0);
    let mut args: Vec<String> = vec!["barc".into(), "cp".into()];
    let (from, end) = selection(&mut args, &offs);
    // into a new or an existing file
    let old = if pick(2) == 1 { vec![recs[n - 1].clone()] }
              else { Vec::new() };
    if !old.is_empty() { archive("o", &old, 0); }
    let ob = get_file("o");
    args.push("a".into());
    args.push("o".into());
    let before = get_file("a");
    check(run(&args) == 0, "exit code");
    check(stdout().is_empty(), "output");
    let mut want = old;
    want.extend_from_slice(&recs[from..end]);
    holds("o", &want);
    let oa = get_file("o");
    check(oa.len() >= ob.len() && eq(&oa[..ob.len()], &ob),
          "existing records changed");
    check(eq(&before, &get_file("a")), "input file changed");
    if from < end { reach(1) } else { reach(2) }
    out(oa.len() as u64);
}

/// Records far into a file, selected by an offset of more than 32 bits.
fn far(args: &mut Vec<String>) -> (Vec<Rec>, Vec<u64>, usize, usize) {
    let hole = [(1 << 32) - 1, 1 << 32, 0x12_3456_7890][pick(3) as usize];
    let recs = records(2);
    let mut offs = archive("a", &recs, 0);
    let b = get_file("a");
    put_sparse("a", b"", hole, &b);
    for o in offs.iter_mut() { *o += hole; }
    let from = pick(3) as usize;
    args.push("-o".into());
    args.push(match pick(3) {
        0 => format!("{}", offs[from]),
        1 => format!("{:#x}", offs[from]),
        _ => format!("{:#014x}", offs[from]),
    });
    let mut end = 2;
    if pick(2) == 1 {
        end = std::cmp::min(from + 1, 2);
        args.push("-c1".into());
    }
    args.push("a".into());
    (recs, offs, from, end)
}

#[no_mangle]
pub extern "C" fn h_l01_far() {
    let mut args: Vec<String> = vec!["barc".into(), "cat".into()];
    let (recs, offs, from, end) = far(&mut args);
    check(run(&args) == 0, "exit code");
    let mut want = Vec::with_capacity(1024);
    for k in from..end { printed(&mut want, "a", offs[k], &recs[k], 31); }
    check(stdout().len() == want.len() && eq(stdout(), &want),
          "records printed");
    reach(1);
    out_bytes(stdout());
}

#[no_mangle]
pub extern "C" fn h_l02_far() {
    let mut args: Vec<String> = vec!["barc".into(), "cp".into()];
    let (recs, _offs, from, end) = far(&mut args);
    // the output may be as long as the input
    let into = pick(2) == 1;
    if into { put_sparse("o", b"", 1 << 33, b""); }
    args.push("o".into());
    check(run(&args) == 0, "exit code");
    check(stdout().is_empty(), "output");
    if !into { holds("o", &recs[from..end]); }
    else {
        let t = Tunables::default();
        let mut rd = BarcFile::new(path("o")).reader().expect("reader");
        rd.seek(1 << 33).expect("seek");
        for r in &recs[from..end] {
            let x = rd.read(&t).expect("read").expect("record");
            check(same_headers(&x.res_headers, &r.sh), "headers");
            check(same_body(&x.res_body, &r.sb), "body");
        }
        check(rd.read(&t).expect("read").is_none(), "no more");
    }
    reach(1);
}

static mut MSG: (usize, usize) = (0, 0);

/// Messages are shown as asked for by the debug option.
#[no_mangle]
pub extern "C" fn h_p01_cli() {
    use tao_log::log::{self, Level};
    const T: [&str; 3] = ["barc", "body_image::x", "other"];
    const L: [Level; 5] = [Level::Error, Level::Warn, Level::Info,
                           Level::Debug, Level::Trace];
    archive("a", &fixed(1), 0);
    let n = pick(5) as usize;
    let (t, l) = (pick(3) as usize, pick(5) as usize);
    unsafe { MSG = (t, l); }
    let form = pick(3);
    let mut args = vec!["barc"];
    let at = pick(3) as usize;
    args.extend_from_slice(&["cat", "a"][..at]);
    match form {
        0 if n > 0 => args.push(&"-dddd"[..n + 1]),
        1 => for _ in 0..n { args.push("-d"); },
        _ => for _ in 0..n { args.push("--debug"); },
    }
    args.extend_from_slice(&["cat", "a"][at..]);
    let r = process(&args, || {
        let c = crate::program_main().code();
        let (t, l) = unsafe { MSG };
        log::log!(target: T[t], L[l], "<hi>");
        c
    });
    check(r == 0, "exit code");
    let max = if n == 0 { 2 } else if n < 3 { 3 } else { 4 };
    let want = l <= max && (n != 1 || t < 2 || l <= 2);
    let shown = stderr().windows(4).any(|w| w == b"<hi>");
    check(shown == want, "shown as asked for");
    if shown { reach(1); } else { reach(2); }
    out(n as u64);
}

/// From compressed and plain inputs, to any compression.
#[no_mangle]
pub extern "C" fn h_l02_compress() {
    let mut recs = fixed(1);
    recs.push(large());
    // a body that is not known to be decoded is left as it is
    let raw = pick(2) == 1;
    if raw { recs[1].meta.pop(); }
    let z = pick(3);
    archive("a", &recs, z);
    let two = pick(3);
    if two == 1 { archive("b", &recs[..1], 0); }
    let mut args: Vec<String> = vec!["barc".into(), "cp".into()];
    let to = pick(3);
    let long = pick(2) == 1;
    match to {
        0 => {}
        1 => args.push(if long { "--gzip" } else { "-z" }.into()),
        _ => args.push(if long { "--brotli" } else { "-b" }.into()),
    }
    args.push("a".into());
    match two {
        0 => {}
        1 => args.push("b".into()),
        // the same again
        _ => args.push("a".into()),
    }
    args.push("o".into());
    check(run(&args) == 0, "exit code");
    let again = recs.clone();
    match two {
        0 => {}
        1 => recs.push(again[0].clone()),
        _ => recs.extend_from_slice(&again),
    }
    holds("o", &recs);
    let l = get_file("o").len();
    check((l < 6000) == (to != 0 && !raw), "compression as selected");
    reach(1 + to as u32);
    out(0);
}

/// A damaged input: what is complete is printed or copied, and the rest is
/// reported.
#[no_mangle]
pub extern "C" fn h_l03_damage() {
    let recs = records(2);
    let offs = archive("a", &recs, 0);
    let full = get_file("a");
    let step = param(0, 7) as usize;
    let cut = conc(any_u8() as u64) as usize * step;
    assume(cut < full.len());
    put_file("a", &full[..cut]);
    let mut k = 0;
    while offs[k + 1] as usize <= cut { k += 1; }
    let whole = cut == 0 || offs[k] as usize == cut;
    let cat = pick(2) == 0;
    let r = if cat { barc(&["barc", "cat", "a"]) }
            else { barc(&["barc", "cp", "a", "o"]) };
    check((r == 0) == whole, "exit code");
    if cat {
        let mut want = Vec::with_capacity(1024);
        for i in 0..k { printed(&mut want, "a", offs[i], &recs[i], 31); }
        check(stdout().len() == want.len() && eq(stdout(), &want),
              "complete records printed");
        reach(1);
    } else {
        holds("o", &recs[..k]);
        reach(2);
    }
    out(k as u64);
}

/// Uses that can not be served are refused, and change no file.
#[no_mangle]
pub extern "C" fn h_l04_refuse() {
    let recs = records(2);
    let offs = archive("a", &recs, 0);
    archive("b", &recs[..1], 0);
    let (fa, fb) = (get_file("a"), get_file("b"));
    let mid = format!("{}", offs[1] + 1);
    let args: &[&str] = match pick(18) {
        0 => &["cp", "a", "a"],
        1 => &["cp", "a", "./a"],
        2 => &["cp", "-c", "-1", "a", "o"],
        3 => &["cp", "-i", "0", "a", "b", "o"],
        4 => &["cp", "-o", "0", "a", "b", "o"],
        5 => &["cp", "-c", "1", "a", "b", "o"],
        6 => &["cp", "-z", "-b", "a", "o"],
        7 => &["cp", "-i", "0", "-o", "0", "a", "o"],
        8 => &["cp", "-i", "x", "a", "o"],
        9 => &["cp", "missing", "o"],
        10 => &["cp", "-o", &mid, "a", "o"],
        11 => &["cat", "-i", "0", "a", "b"],
        12 => &["cat", "-o", "0", "a", "b"],
        13 => &["cat", "-c", "1", "a", "b"],
        14 => &["cat", "-i", "1", "-o", "0", "a"],
        15 => &["cat", "missing"],
        16 => &["cat", "-o", &mid, "a"],
        _ => &["cat", "-o", "0xg", "a"],
    };
    let mut v = vec!["barc"];
    v.extend_from_slice(args);
    let r = barc(&v);
    check(r != 0, "refused");
    check(r != 101, "orderly exit");
    check(stdout().is_empty(), "no output");
    check(eq(&fa, &get_file("a")), "file changed");
    check(eq(&fb, &get_file("b")), "file changed");
    check(get_file("o").is_empty(), "output written");
    reach(1);
    out(r as u64);
}

harnesses!(h_l01_cat, h_p01_cli, h_l01_far, h_l02_far, h_l01_parts, h_l02_cp, h_l02_compress, h_l03_damage,
           h_l04_refuse);
