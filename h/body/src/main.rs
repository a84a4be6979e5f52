use body_image::*;
use bytes::Bytes;
use olio::fs::rc::ReadSlice;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::Arc;
use sxrt::env::{self, Fault, Op};
use sxrt::*;

/// Bytes accepted so far, as the reference.
struct Ref { b: Vec<u8> }

impl Ref {
    fn new() -> Ref { Ref { b: Vec::with_capacity(64) } }
    fn add(&mut self, s: &[u8]) { self.b.extend_from_slice(s); }
    fn get(&self) -> &[u8] { &self.b }
    fn n(&self) -> usize { self.b.len() }
}

fn sink_new() -> BodySink {
    match pick(4) {
        0 => BodySink::empty(),
        1 => BodySink::with_ram(9000),
        2 => BodySink::with_ram_buffers(2),
        _ => BodySink::with_fs(dir()).expect("with_fs"),
    }
}

/// One symbolic operation on a sink. Chunks hold up to `max` bytes.
#[allow(deprecated)]
fn sink_op(s: &mut BodySink, max: u8, r: &mut Ref) {
    let kind = pick(4);
    if kind == 3 {
        s.write_back(dir()).expect("write_back");
        check(!s.is_ram(), "write_back leaves a file backed sink");
    } else {
        let n = pick(max + 1) as usize;
        let data = any_bytes::<4>();
        let data = &data[..n];
        match kind {
            0 => s.push(Bytes::copy_from_slice(data)).expect("push"),
            1 => s.write_all(data).expect("write_all"),
            _ => s.save(data.to_vec()).expect("save"),
        }
        r.add(data);
    }
    check(s.len() == r.n() as u64, "sink length is bytes accepted");
    check(s.is_empty() == (r.n() == 0), "sink is_empty");
}

/// Writer accepting at most `step` bytes per call.
struct Slow { v: Vec<u8>, step: usize }

impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = std::cmp::min(b.len(), self.step);
        self.v.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn read_all(rd: &mut dyn Read, step: usize, max: usize) -> Vec<u8> {
    let mut out = vec![0u8; max + step];
    let mut n = 0;
    loop {
        let k = rd.read(&mut out[n..n + step]).expect("read");
        if k == 0 { break; }
        n += k;
        check(n <= max, "reader gives no more than the body");
        if n > max { kill(); }
    }
    out.truncate(n);
    out
}

/// All ways to get at the bytes of an image must give `want`. One way is
/// taken per path.
fn views(b: &BodyImage, want: &[u8], way: u8, step: usize) {
    check(b.len() == want.len() as u64, "image length");
    check(b.is_empty() == want.is_empty(), "image is_empty");
    match way {
        0 => {
            let o = read_all(&mut b.reader(), step, want.len());
            check(o.len() == want.len(), "reader length");
            check(eq(&o, want), "reader content");
            out_bytes(&o);
        }
        1 => {
            let mut w = Slow { v: Vec::with_capacity(32), step };
            let n = b.write_to(&mut w).expect("write_to");
            check(n == want.len() as u64, "write_to count");
            check(w.v.len() == want.len(), "write_to length");
            check(eq(&w.v, want), "write_to content");
            out_bytes(&w.v);
        }
        _ => taken_apart(b.clone(), want, step),
    }
}

/// The same, where the image itself rather than a clone is taken apart.
fn finish(b: BodyImage, want: &[u8], way: u8, step: usize) {
    if way < 2 { views(&b, want, way, step); }
    else {
        check(b.len() == want.len() as u64, "image length");
        taken_apart(b, want, step);
    }
}

fn taken_apart(b: BodyImage, want: &[u8], step: usize) {
    let (ram, map) = (b.is_ram(), b.is_mem_map());
    match b.explode() {
        ExplodedImage::Ram(v) => {
            check(ram && !map, "told to be in memory");
            let mut o = Vec::with_capacity(32);
            for b in v.iter() { o.extend_from_slice(b); }
            check(o.len() == want.len(), "explode length");
            check(eq(&o, want), "explode content");
            reach(10);
        }
        ExplodedImage::FsRead(mut rs) => {
            check(!ram && !map, "told to be in a file");
            let o = read_all(&mut rs, step, want.len());
            check(o.len() == want.len(), "explode length");
            check(eq(&o, want), "explode content");
            reach(11);
        }
        ExplodedImage::MemMap(m) => {
            check(map && !ram, "told to be mapped");
            check(m.len() == want.len(), "explode length");
            check(eq(&m, want), "explode content");
            reach(12);
        }
    }
}

/// An image that is backed by a file in some way: written to it, made from a
/// file, or from a range of one.
fn file_image(want: &[u8]) -> BodyImage {
    let form = pick(3);
    if form == 0 {
        let mut s = BodySink::with_fs(dir()).expect("with_fs");
        s.write_all(want).expect("write");
        return s.prepare().expect("prepare");
    }
    let at = if form == 1 { 0 } else { 2 };
    let mut v = vec![b'#'; at];
    v.extend_from_slice(want);
    v.push(b'$');
    put_file("image", &v);
    let f = std::fs::File::open(path("image")).expect("open");
    if form == 1 {
        unsafe { BodyImage::from_file(f, want.len() as u64) }
    } else {
        let end = (at + want.len()) as u64;
        unsafe { BodyImage::from_read_slice(
            ReadSlice::new(Arc::new(f), at as u64, end)) }
    }
}

fn convert(b: &mut BodyImage) {
    match pick(4) {
        0 => {}
        1 => { b.mem_map().expect("mem_map"); }
        2 => { b.gather(); }
        _ => { b.gather(); b.mem_map().expect("mem_map"); }
    }
}

/// Any history of sink operations, any conversion, any view.
#[no_mangle]
pub extern "C" fn h_c01_content() {
    let nops = param(0, 3);
    let max = param(1, 2) as u8;
    let mut r = Ref::new();
    let mut s = sink_new();
    for _ in 0..nops { sink_op(&mut s, max, &mut r); }
    let mut b = s.prepare().expect("prepare");
    check(b.len() == r.n() as u64, "image length is bytes accepted");
    let way = pick(3);
    let step = 1 + pick(3) as usize;
    convert(&mut b);
    if !b.is_empty() && b.is_mem_map() { reach(1); }
    if b.is_ram() { reach(2); }
    finish(b, r.get(), way, step);
}

/// Longer histories of single byte chunks, and converting clones.
#[no_mangle]
pub extern "C" fn h_c01_many() {
    let nops = param(0, 7);
    let mut r = Ref::new();
    let mut s = BodySink::default();
    let at = pick(nops as u8 + 2);
    for i in 0..nops as u8 {
        if at == i {
            s.write_back(dir()).expect("write_back");
            reach(3);
        }
        let b = [any_u8()];
        if i & 1 == 0 { s.push(Bytes::copy_from_slice(&b)).expect("push"); }
        else { s.write_all(b).expect("write_all"); }
        r.add(&b);
    }
    check(s.len() == nops, "sink length is bytes accepted");
    let b = s.prepare().expect("prepare");
    let mut c = b.clone();
    convert(&mut c);
    let way = pick(3);
    views(&c, r.get(), way, 3);
    views(&b, r.get(), way, 64);
}

/// Chunk sizes around the buffer sizes used on the way (1, 4, 8, 64 KiB and
/// more), with symbolic marks at the ends of each chunk.
#[no_mangle]
pub extern "C" fn h_c01_sizes() {
    const SIZES: [usize; 12] =
        [1, 1023, 1025, 4097, 8191, 8192, 8193, 16385, 32769, 65535, 65537,
         300_001];
    let n = param(0, 2);
    let mut r = Ref::new();
    let mut s = if pick(2) == 0 { BodySink::empty() }
                else { BodySink::with_fs(dir()).expect("with_fs") };
    let back = pick(2) == 1;
    let first = SIZES[pick(12) as usize];
    let big = pick(n as u8);
    for i in 0..n {
        let l = if i == big as u64 { first } else { 3 };
        let mut v = vec![b'a' + i as u8; l];
        v[0] = any_u8();
        v[l - 1] = any_u8();
        r.add(&v);
        if pick(2) == 0 { s.push(v).expect("push"); }
        else { s.write_all(&v).expect("write_all"); }
    }
    check(s.len() == r.n() as u64, "sink length is bytes accepted");
    if back { s.write_back(dir()).expect("write_back"); }
    let mut b = s.prepare().expect("prepare");
    let way = pick(3);
    convert(&mut b);
    check(b.len() == r.n() as u64, "image length");
    match way {
        0 => {
            let mut o = Vec::with_capacity(r.n());
            b.reader().read_to_end(&mut o).expect("read");
            check(o.len() == r.n(), "reader length");
            check(eq(&o, r.get()), "reader content");
        }
        1 => {
            let mut o = Vec::with_capacity(r.n());
            let n = b.write_to(&mut o).expect("write_to");
            check(n == r.n() as u64, "write_to count");
            check(o.len() == r.n(), "write_to length");
            check(eq(&o, r.get()), "write_to content");
        }
        _ => {
            let mut sl = Slow { v: Vec::with_capacity(r.n()), step: 5000 };
            b.write_to(&mut sl).expect("write_to");
            check(sl.v.len() == r.n(), "write_to length");
            check(eq(&sl.v, r.get()), "write_to content");
        }
    }
    reach(4);
}

// ---- reading from a source ----

const KINDS: [ErrorKind; 6] =
    [ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::TimedOut,
     ErrorKind::ConnectionReset, ErrorKind::BrokenPipe, ErrorKind::Other];

/// Source with position coded or symbolic content, delivering chunks of
/// chosen sizes, interruptions and an error.
struct Src {
    data: Vec<u8>,
    pos: usize,
    chunk: [u8; 12],
    calls: usize,
    /// call at which to interrupt (once)
    intr: usize,
    /// call at which to fail
    fail: usize,
    kind: ErrorKind,
    ram_limit: u64,
    failed: bool,
    ended: bool,
}

impl Src {
    fn new(data: Vec<u8>) -> Src {
        Src { data, pos: 0, chunk: [255; 12], calls: 0, intr: 99, fail: 99,
              kind: ErrorKind::Other, ram_limit: u64::MAX, failed: false, ended: false }
    }
}

impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        if self.pos as u64 > self.ram_limit {
            check(env::count(Op::Open) > 0,
                  "not more than the memory limit and a buffer held in memory");
        }
        if k == self.intr {
            return Err(ErrorKind::Interrupted.into());
        }
        if k == self.fail {
            self.failed = true;
            return Err(self.kind.into());
        }
        check(!buf.is_empty(), "source given room to read");
        let left = self.data.len() - self.pos;
        let want = if k < 12 { self.chunk[k] as usize } else { 255 };
        let mut n = std::cmp::min(left, buf.len());
        if want < n { n = want; }
        if left > 0 && n == 0 { n = 1; }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if n == 0 { self.ended = true; }
        Ok(n)
    }
}

/// Limits on size, residency and consumption for any source and tunables.
#[no_mangle]
pub extern "C" fn h_c02_limits() {
    let maxlen = param(0, 8) as u8;
    // limits and estimate are any 64-bit values
    let ram = any_u64();
    let max = any_u64();
    let est = any_u64();
    assume(ram <= max);
    // an estimate is taken as a reason to allocate
    assume(est > ram || est <= 20000);
    let br = 1 + pick(param(1, 3) as u8) as usize;
    let bf = 1 + pick(param(1, 3) as u8) as usize;
    let len = pick(maxlen + 1) as usize;
    let tune = Tuner::new()
        .set_max_body_ram(ram).set_max_body(max)
        .set_buffer_size_ram(br).set_buffer_size_fs(bf)
        .set_temp_dir(dir()).finish();
    let mut data = Vec::with_capacity(len);
    for i in 0..len { data.push(b'a' + i as u8); }
    let mut src = Src::new(data);
    let c = 1 + pick(2);
    for x in src.chunk.iter_mut() { *x = c; }
    src.ram_limit = ram.saturating_add(br as u64);
    env::arm(&[]);
    let r = BodyImage::read_from(&mut src, est, &tune);
    env::disarm();
    check(src.pos as u64
          <= max.saturating_add(std::cmp::max(br, bf) as u64),
          "source consumed no further than the limit and a buffer");
    match r {
        Ok(b) => {
            check(len as u64 <= max, "longer source than allowed accepted");
            check(b.len() == len as u64, "image has the length of the source");
            if b.is_ram() {
                check(b.len() <= ram, "memory image within memory limit");
                reach(1);
            } else { reach(2); }
            if len as u64 <= ram && est <= ram {
                check(b.is_ram(), "small body kept in memory");
            }
            out(b.len());
        }
        Err(BodyError::BodyTooLong(n)) => {
            check(len as u64 > max, "body within the limit rejected");
            check(n > max && n <= len as u64, "reported length");
            reach(3);
        }
        Err(_) => check(false, "unexpected error"),
    }
}

/// The same at realistic sizes: limits and buffers of several KiB with any
/// source length near each of the boundaries.
#[no_mangle]
pub extern "C" fn h_c02_scale() {
    const EDGE: [u64; 6] = [0, 1, 8192, 12288, 16384, 20000];
    let ram = EDGE[pick(6) as usize];
    let max = std::cmp::max(ram, EDGE[pick(6) as usize]);
    let near = match pick(3) { 0 => ram, 1 => max, _ => 9000 };
    let len = match pick(4) {
        0 => near, 1 => near + 1, 2 => near.saturating_sub(1),
        _ => near + 4097 } as usize;
    let tune = Tuner::new()
        .set_max_body_ram(ram).set_max_body(max)
        .set_buffer_size_ram(8192).set_buffer_size_fs(16384)
        .set_temp_dir(dir()).finish();
    let mut data = vec![7u8; len];
    if len > 0 { data[len - 1] = any_u8(); data[0] = any_u8(); }
    let mut src = Src::new(data.clone());
    src.ram_limit = ram + 8192;
    env::arm(&[]);
    let est = match pick(3) { 0 => 0, 1 => ram, _ => 20001 };
    let r = BodyImage::read_from(&mut Big(&mut src), est, &tune);
    env::disarm();
    check(src.pos as u64 <= max + 16384,
          "source consumed no further than the limit and a buffer");
    match r {
        Ok(b) => {
            check(len as u64 <= max, "longer source than allowed accepted");
            check(b.len() == len as u64, "image has the length of the source");
            if b.is_ram() {
                check(b.len() <= ram, "memory image within memory limit");
                reach(1);
            } else { reach(2); }
            if len as u64 <= ram && est <= ram {
                check(b.is_ram(), "small body kept in memory");
            }
            let mut o = Vec::with_capacity(len);
            b.reader().read_to_end(&mut o).expect("read");
            check(o.len() == len, "image content length");
            check(eq(&o, &data), "image content");
        }
        Err(BodyError::BodyTooLong(_)) => {
            check(len as u64 > max, "body within the limit rejected");
            reach(3);
        }
        Err(_) => check(false, "unexpected error"),
    }
}

/// Buffers and sources of realistic size, with reads, interruptions and
/// failures of the source as it goes.
#[no_mangle]
pub extern "C" fn h_c03_scale() {
    const LENS: [usize; 6] = [1, 1025, 8193, 20000, 65537, 140_000];
    let len = LENS[pick(6) as usize];
    let mut t = Tuner::new();
    t.set_temp_dir(dir());
    match pick(3) {
        0 => { t.set_max_body_ram(10000); }
        1 => { t.set_max_body_ram(0); }
        _ => {}
    }
    if pick(2) == 1 {
        t.set_buffer_size_ram(1500).set_buffer_size_fs(5000);
    }
    let t = t.finish();
    let mut data = Vec::with_capacity(len);
    for i in 0..len { data.push((i % 253) as u8); }
    data[0] = any_u8();
    data[len - 1] = any_u8();
    let mut src = Steps { data: &data, pos: 0, calls: 0,
                          odd: pick(5) as usize,
                          small: [1, 1023, 1024][pick(3) as usize],
                          what: pick(4), failed: false };
    let r = BodyImage::read_from(&mut src, pick(2) as u64 * 20000, &t);
    match r {
        Ok(b) => {
            check(!src.failed, "source failure reported");
            check(b.len() == len as u64, "image has all of the source");
            let mut o = Vec::with_capacity(len);
            b.reader().read_to_end(&mut o).expect("read");
            check(o.len() == len, "image content length");
            check(eq(&o, &data), "image content is the source");
            if b.is_ram() { reach(1); } else { reach(2); }
        }
        Err(BodyError::Io(e)) => {
            check(src.failed, "error without cause");
            check(e.kind() == ErrorKind::ConnectionReset,
                  "source error passed on");
            reach(3);
        }
        Err(_) => check(false, "unexpected error"),
    }
}

/// Source that fills the buffers, except at one call: where it delivers only
/// a few bytes, is interrupted, or fails.
struct Steps<'a> { data: &'a [u8], pos: usize, calls: usize, odd: usize,
                   small: usize, what: u8, failed: bool }

impl<'a> Read for Steps<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = std::cmp::min(self.data.len() - self.pos, buf.len());
        let k = self.calls;
        self.calls += 1;
        if k == self.odd {
            match self.what {
                0 => n = std::cmp::min(n, self.small),
                1 => return Err(ErrorKind::Interrupted.into()),
                2 => {
                    self.failed = true;
                    return Err(ErrorKind::ConnectionReset.into());
                }
                _ => {}
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Source without the 255 byte chunk limit.
struct Big<'a>(&'a mut Src);

impl<'a> Read for Big<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let s = &mut *self.0;
        if s.pos as u64 > s.ram_limit {
            check(env::count(Op::Open) > 0,
                  "not more than the memory limit and a buffer held in memory");
        }
        let n = std::cmp::min(s.data.len() - s.pos, buf.len());
        buf[..n].copy_from_slice(&s.data[s.pos..s.pos + n]);
        s.pos += n;
        Ok(n)
    }
}

/// Content is exact whatever the chunking, interruptions, errors of the
/// source and hiccups of the file system.
#[no_mangle]
pub extern "C" fn h_c03_read_from() {
    let maxlen = param(0, 5) as u8;
    let ram = pick(3) as u64 * 2;
    let br = 1 + pick(3) as usize;
    let bf = 1 + pick(3) as usize;
    let len = pick(maxlen + 1) as usize;
    let est = pick(2) as u64 * 5;
    let tune = Tuner::new()
        .set_max_body_ram(ram).set_max_body(100)
        .set_buffer_size_ram(br).set_buffer_size_fs(bf)
        .set_temp_dir(dir()).finish();
    let data = any_bytes::<8>()[..len].to_vec();
    let mut src = Src::new(data.clone());
    for i in 0..2 { src.chunk[i] = 1 + pick(3); }
    for i in 2..6 { src.chunk[i] = src.chunk[i - 2]; }
    src.intr = pick(4) as usize;
    if pick(2) == 1 {
        src.fail = pick(4) as usize;
        src.kind = KINDS[pick(6) as usize];
    }
    let f = match pick(4) {
        0 => Fault { op: 255, nth: 0, what: 0 },
        1 => Fault { op: Op::Write as u8, nth: pick(2), what: env::INTR },
        2 => Fault { op: Op::Write as u8, nth: pick(2), what: env::SHORT },
        _ => Fault { op: Op::Write as u8, nth: pick(2), what: env::FAIL },
    };
    env::arm(&[f]);
    let r = BodyImage::read_from(&mut src, est, &tune);
    let nwr = env::count(Op::Write);
    env::disarm();
    let wfail = f.op == Op::Write as u8 && f.what == env::FAIL
        && nwr > f.nth as usize;
    match r {
        Ok(b) => {
            check(!src.failed, "source failure reported");
            check(!wfail, "file failure reported");
            check(src.ended, "source read to its end");
            let o = read_all(&mut b.reader(), 4, len);
            check(o.len() == len, "image has all of the source");
            check(eq(&o, &data), "image content is the source");
            out_bytes(&o);
            if b.is_ram() { reach(1); } else { reach(2); }
        }
        Err(BodyError::Io(e)) => {
            check(src.failed || wfail, "error without cause");
            if src.failed {
                check(e.kind() == src.kind,
                      "source error passed on");
                reach(3);
            } else { reach(4); }
        }
        Err(_) => check(false, "unexpected error"),
    }
}

/// Failed writes leave nothing behind.
#[no_mangle]
pub extern "C" fn h_c04_faults() {
    let nops = param(0, 3);
    let mut r = Ref::new();
    let mut s = if pick(2) == 0 { BodySink::empty() }
                else { BodySink::with_fs(dir()).expect("with_fs") };
    let fs = [
        Fault { op: if pick(2) == 0 { Op::Write } else { Op::Open } as u8,
                nth: pick(3), what: pick(4) },
        Fault { op: Op::Write as u8, nth: pick(4), what: pick(4) },
    ];
    // a short write completes, and may be followed by a failing one
    env::arm(&fs);
    for _ in 0..nops {
        let kind = pick(3);
        if kind == 2 {
            let was = s.is_ram();
            match s.write_back(dir()) {
                Ok(_) => check(!s.is_ram(), "write_back to file"),
                Err(_) => {
                    check(was, "write_back of file backed sink is a no-op");
                    check(s.is_ram(), "failed write_back: in memory");
                    check(s.is_empty() && s.len() == 0,
                          "failed write_back: empty");
                    r = Ref::new();
                    reach(1);
                }
            }
        } else {
            let n = pick(3) as usize;
            let data = any_bytes::<2>();
            let data = &data[..n];
            let res = if kind == 0 { s.push(Bytes::copy_from_slice(data)) }
                      else { s.write_all(data) };
            match res {
                Ok(()) => r.add(data),
                Err(e) => {
                    check(!s.is_ram(), "memory push does not fail");
                    check(e.kind() != ErrorKind::Interrupted,
                          "interruption retried");
                    reach(2);
                }
            }
        }
        check(s.len() == r.n() as u64, "length is bytes accepted");
    }
    env::disarm();
    let mut b = s.prepare().expect("prepare");
    let way = pick(3);
    if pick(2) == 1 { b.mem_map().expect("mem_map"); }
    views(&b, r.get(), way, 3);
}

/// Writer of which one call fails, is interrupted, or takes only a part.
struct Bad { v: Vec<u8>, nth: u8, what: u8 }

impl Write for Bad {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let hit = self.nth == 0;
        self.nth = self.nth.wrapping_sub(1);
        let mut n = b.len();
        if hit {
            match self.what {
                0 => return Err(io::Error::from_raw_os_error(28)),
                1 => return Err(ErrorKind::Interrupted.into()),
                2 => n = std::cmp::min(n, 1),
                3 => return Ok(0),
                _ => (),
            }
        }
        self.v.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// Writing out any form of a body, also when its file ends too early.
#[no_mangle]
pub extern "C" fn h_c04_write_out() {
    let data = any_bytes::<4>();
    let form = pick(4);
    let mut have = 4;
    let b = match form {
        0 | 1 => {
            let mut s = if form == 0 { BodySink::with_ram(4) }
                        else { BodySink::with_fs(dir()).expect("with_fs") };
            let k = pick(3) as usize;
            s.write_all(&data[..k]).expect("write");
            s.write_all(&data[k..]).expect("write");
            let mut b = s.prepare().expect("prepare");
            if pick(2) == 1 { b.mem_map().expect("mem_map"); }
            b
        }
        _ => {
            have = pick(5) as usize;
            let at = if form == 3 { 2 } else { 0 };
            let mut f = Vec::with_capacity(8);
            f.resize(at, b'#');
            f.extend_from_slice(&data[..have]);
            put_file("src", &f);
            let f = std::fs::File::open(path("src")).expect("open");
            if form == 2 {
                unsafe { BodyImage::from_file(f, 4) }
            } else {
                let rs = ReadSlice::new(Arc::new(f), 2, 6);
                unsafe { BodyImage::from_read_slice(rs) }
            }
        }
    };
    let mut w = Bad { v: Vec::with_capacity(8), nth: pick(3), what: pick(5) };
    let r = b.write_to(&mut w);
    let bad = w.nth > 100;
    let fails = bad && (w.what == 0 || w.what == 3);
    check(w.v.len() <= have, "more than there is");
    check(eq(&w.v, &data[..w.v.len()]), "written out is a beginning");
    match r {
        Ok(n) => {
            check(n == 4, "length written");
            check(w.v.len() == 4, "success only if all is written");
            check(!fails, "failed write is reported");
            reach(1);
        }
        Err(_) => {
            check(fails || have < 4, "fails without cause");
            reach(2);
        }
    }
    out_bytes(&w.v);
}

/// Failures while converting or reading an image are reported, and do not
/// change it.
#[no_mangle]
pub extern "C" fn h_c04_image_faults() {
    let mut r = Ref::new();
    let data = any_bytes::<3>();
    let n = pick(4) as usize;
    r.add(&data[..n]);
    let mut b = file_image(r.get());
    let nth = pick(2);
    let what = pick(3);
    let map = pick(2) == 1;
    env::arm(&[Fault { op: Op::Map as u8, nth, what: env::FAIL },
               Fault { op: Op::Read as u8, nth, what }]);
    if map {
        let ok = b.mem_map().is_ok();
        check(b.is_mem_map() == (ok && n > 0), "mapped when it succeeded");
        check(b.len() == n as u64, "length kept");
        if !ok { reach(1); }
    }
    // a failed or interrupted read may be repeated
    let mut o = [0u8; 8];
    let mut k = 0;
    {
        let mut rd = b.reader();
        let mut errs = 0;
        loop {
            match rd.read(&mut o[k..k + 2]) {
                Ok(0) => break,
                Ok(m) => k += m,
                Err(_) => { errs += 1; reach(2); }
            }
            check(k <= n, "no more than the body");
            check(errs < 2, "one fault one error");
        }
    }
    check(k == n, "all of the body");
    check(eq(&o[..k], r.get()), "content after failures");
    env::arm(&[Fault { op: Op::Read as u8, nth, what: env::FAIL }]);
    let mut v = Vec::with_capacity(8);
    match b.write_to(&mut v) {
        Ok(c) => {
            check(c == n as u64, "write_to count");
            check(eq(&v, r.get()), "write_to content");
        }
        Err(_) => { check(!b.is_ram() && !b.is_mem_map(), "read failure");
                    reach(3); }
    }
    env::disarm();
    views(&b, r.get(), pick(3), 2);
}

/// Readers and clones do not disturb each other, whatever the interleaving.
#[no_mangle]
pub extern "C" fn h_c05_readers() {
    let steps = param(0, 4);
    let mut r = Ref::new();
    let k = 1 + pick(param(1, 2) as u8) as usize;
    let mut b = if pick(2) == 0 {
        let mut s = BodySink::empty();
        for _ in 0..k {
            let d = any_bytes::<2>();
            s.write_all(&d).expect("write_all");
            r.add(&d);
        }
        s.prepare().expect("prepare")
    } else {
        r.add(&any_bytes::<6>()[..2 * k]);
        file_image(r.get())
    };
    let c = b.clone();
    convert(&mut b);
    let want = r.get();
    let mut r0 = c.reader();
    let mut r1 = if pick(2) == 0 { c.reader() } else { b.reader() };
    let (mut o0, mut o1) = ([0u8; 8], [0u8; 8]);
    let (mut n0, mut n1) = (0, 0);
    for _ in 0..steps {
        match pick(4) {
            0 => {
                let l = 1 + pick(2) as usize;
                n0 += r0.read(&mut o0[n0..n0 + l]).expect("read");
            }
            1 => {
                let l = 1 + pick(2) as usize;
                n1 += r1.read(&mut o1[n1..n1 + l]).expect("read");
            }
            2 => {
                let mut d = c.clone();
                convert(&mut d);
                views(&d, want, 1, 8);
                reach(2);
            }
            _ => {
                views(&b, want, 0, 3);
                reach(3);
            }
        }
        check(n0 <= want.len() && eq(&o0[..n0], &want[..n0]), "reader 0");
        check(n1 <= want.len() && eq(&o1[..n1], &want[..n1]), "reader 1");
    }
    while n0 < 8 {
        let m = r0.read(&mut o0[n0..n0 + 1]).expect("read");
        if m == 0 { break; }
        n0 += m;
    }
    check(n0 == want.len() && eq(&o0[..n0], want), "reader 0 to the end");
    drop(b);
    let e = pick(3);
    views(&c, want, e, 8);
    reach(1);
}

/// Writer that looks at another image when it is written to.
struct Nested<'a> { v: Vec<u8>, at: u8, other: &'a BodyImage, want: &'a [u8] }

impl<'a> Write for Nested<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.at == 0 {
            let mut o = Vec::with_capacity(self.want.len());
            if pick(2) == 0 {
                let n = self.other.write_to(&mut o).expect("write_to");
                check(n == self.want.len() as u64, "nested count");
            } else {
                self.other.reader().read_to_end(&mut o).expect("read");
            }
            check(o.len() == self.want.len(), "nested length");
            check(eq(&o, self.want), "nested content");
            reach(3);
        }
        self.at = self.at.wrapping_sub(1);
        self.v.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// A body larger than the buffers on the way is written out or read, while
/// the same is done with a clone of it.
#[no_mangle]
pub extern "C" fn h_c05_large() {
    let mut want = Vec::with_capacity(20000);
    for i in 0..20000u32 { want.push((i % 251) as u8); }
    for i in [0, 8191, 8192, 19999].iter() { want[*i] = any_u8(); }
    let mut b = file_image(&want);
    let mut c = b.clone();
    if pick(2) == 1 { c.mem_map().expect("mem_map"); }
    if pick(2) == 1 { b.mem_map().expect("mem_map"); }
    if pick(2) == 0 {
        let mut w = Nested { v: Vec::with_capacity(20000), at: pick(3),
                             other: &c, want: &want };
        let n = b.write_to(&mut w).expect("write_to");
        check(n == 20000, "count");
        check(w.v.len() == 20000, "length");
        check(eq(&w.v, &want), "content");
        reach(1);
    } else {
        // two readers in turn, and the file written out between
        let (mut r0, mut r1) = (b.reader(), c.reader());
        let (mut o0, mut o1) = (vec![0u8; 20000], vec![0u8; 20000]);
        let (mut n0, mut n1) = (0, 0);
        let k = 4096 + pick(2) as usize;
        let mut first = pick(2) == 0;
        while n0 < 20000 || n1 < 20000 {
            if first {
                let e = std::cmp::min(n0 + k, 20000);
                n0 += r0.read(&mut o0[n0..e]).expect("read");
            } else {
                let e = std::cmp::min(n1 + 5000, 20000);
                n1 += r1.read(&mut o1[n1..e]).expect("read");
                if n1 == 5000 {
                    let mut o = Vec::with_capacity(20000);
                    c.write_to(&mut o).expect("write_to");
                    check(eq(&o, &want), "written out meanwhile");
                }
            }
            first = !first;
        }
        check(eq(&o0, &want), "reader 0");
        check(eq(&o1, &want), "reader 1");
        reach(2);
    }
}

/// Ranges of any length, of which the file has only the beginning.
#[no_mangle]
pub extern "C" fn h_c06_long() {
    let data = any_bytes::<6>();
    put_file("w", &data);
    let f = std::fs::File::open(path("w")).expect("open");
    let at = pick(4) as usize;
    let len = any_u64();
    assume(len >= 6 && len < 1 << 62);
    let b = if at == 0 && pick(2) == 0 {
        unsafe { BodyImage::from_file(f, len) }
    } else {
        unsafe { BodyImage::from_read_slice(
            ReadSlice::new(Arc::new(f), at as u64, at as u64 + len)) }
    };
    let b = if pick(2) == 0 { b } else { b.clone() };
    check(b.len() == len, "image length");
    check(!b.is_empty(), "image is_empty");
    let there = &data[at..];
    let all = there.len() as u64 == len;
    match pick(3) {
        0 => {
            let o = read_all(&mut b.reader(), 4, there.len());
            check(eq(&o, there), "reader content");
            out_bytes(&o);
        }
        1 => {
            let mut o = Vec::with_capacity(8);
            let r = b.write_to(&mut o);
            check(r.is_ok() == all, "write_to succeeds when complete");
            check(o.len() == there.len() && eq(&o, there),
                  "write_to content");
        }
        _ => if let ExplodedImage::FsRead(mut rs) = b.explode() {
            check(rs.len() == len, "length of the range");
            let o = read_all(&mut rs, 4, there.len());
            check(eq(&o, there), "explode content");
        } else {
            check(false, "explode form");
        },
    }
    reach(1);
}

/// Ranges far into a file, around 32 bit boundaries of positions.
#[no_mangle]
pub extern "C" fn h_c06_far() {
    const HOLES: [u64; 4] = [(1 << 32) - 4096, (1 << 32) - 3, 1 << 32,
                             (1 << 33) + 4096];
    let hole = HOLES[pick(4) as usize];
    let data = any_bytes::<6>();
    put_sparse("w", b"", hole, &data);
    let f = std::fs::File::open(path("w")).expect("open");
    // zeros before the data
    let mut all = [0u8; 8];
    all[2..].copy_from_slice(&data);
    let a = pick(5) as usize;
    let e = a + 1 + pick(4) as usize;
    let want = &all[a..e];
    let (a, e) = (hole - 2 + a as u64, hole - 2 + e as u64);
    let rs = match pick(3) {
        0 => ReadSlice::new(Arc::new(f), a, e),
        // by way of the whole file
        1 => ReadSlice::new(Arc::new(f), 0, hole + 6).subslice(a, e),
        _ => {
            let mut rs = ReadSlice::new(Arc::new(f), a, e);
            rs.read(&mut [0u8; 1]).expect("read");
            rs
        }
    };
    let b = unsafe { BodyImage::from_read_slice(rs) };
    let mut b = if pick(2) == 0 { b } else { b.clone() };
    check(b.len() == want.len() as u64, "image length");
    match pick(4) {
        0 => {
            let o = read_all(&mut b.reader(), 4, 8);
            check(o.len() == want.len(), "reader length");
            check(eq(&o, want), "reader content");
            out_bytes(&o);
        }
        1 => {
            let mut o = Vec::with_capacity(8);
            let n = b.write_to(&mut o).expect("write_to");
            check(n == want.len() as u64, "write_to length");
            check(o.len() == want.len() && eq(&o, want), "write_to content");
        }
        // a map starts at a page, here after the zeros
        2 => if a >= hole && hole & 4095 == 0 {
            b.mem_map().expect("mem_map");
            let o = read_all(&mut b.reader(), 4, 8);
            check(o.len() == want.len() && eq(&o, want), "map content");
            reach(2);
        },
        _ => if let ExplodedImage::FsRead(mut rs) = b.explode() {
            check(rs.len() == want.len() as u64, "length of the range");
            let o = read_all(&mut rs, 4, 8);
            check(o.len() == want.len() && eq(&o, want), "explode content");
        } else {
            check(false, "explode form");
        },
    }
    reach(1);
}

/// Images over existing files and ranges of files: exactly the range.
#[no_mangle]
pub extern "C" fn h_c06_window() {
    let flen = 1 + pick(param(0, 5) as u8) as usize;
    let data = any_bytes::<8>();
    let data = &data[..flen];
    put_file("w", data);
    let f = std::fs::File::open(path("w")).expect("open");
    let (mut b, want) = if pick(2) == 0 {
        let n = pick(flen as u8 + 1) as usize;
        (unsafe { BodyImage::from_file(f, n as u64) }, &data[..n])
    } else {
        let a = pick(flen as u8 + 1) as usize;
        let e = a + pick((flen - a) as u8 + 1) as usize;
        let mut rs = ReadSlice::new(Arc::new(f), a as u64, e as u64);
        if a < e && pick(2) == 1 {
            // partly read slice: still the whole range
            let mut x = [0u8; 1];
            rs.read(&mut x).expect("read");
        }
        (unsafe { BodyImage::from_read_slice(rs) }, &data[a..e])
    };
    let way = pick(3);
    let step = 1 + pick(3) as usize;
    if pick(2) == 1 {
        views(&b, want, 0, step);
        reach(3);
    }
    if pick(2) == 1 {
        b.mem_map().expect("mem_map");
        check(b.is_mem_map() || want.is_empty(), "mapped");
        reach(1);
    }
    b.gather();
    if pick(2) == 1 { b = b.clone(); }
    finish(b, want, way, step);
    reach(2);
}

/// Ranges of a file of more than one page, so that the range may begin and
/// end anywhere relative to a page.
#[no_mangle]
pub extern "C" fn h_c06_pages() {
    const AT: [usize; 7] = [0, 1, 4095, 4096, 4097, 8191, 8200];
    let mut data = vec![0u8; 8200];
    for (i, x) in data.iter_mut().enumerate() { *x = (i % 251) as u8; }
    for i in AT.iter() {
        if *i < 8200 { data[*i] = any_u8(); }
        if *i > 0 { data[*i - 1] = any_u8(); }
    }
    put_file("w", &data);
    let f = std::fs::File::open(path("w")).expect("open");
    let i = pick(7) as usize;
    let j = i + pick(7 - i as u8) as usize;
    let want = &data[AT[i]..AT[j]];
    let mut b = if i == 0 && pick(2) == 0 {
        unsafe { BodyImage::from_file(f, AT[j] as u64) }
    } else {
        unsafe { BodyImage::from_read_slice(
            ReadSlice::new(Arc::new(f), AT[i] as u64, AT[j] as u64)) }
    };
    let way = pick(3);
    if pick(2) == 1 { b.mem_map().expect("mem_map"); reach(1); }
    views(&b, want, way, 3000);
    reach(2);
}

/// Settings: what is set is what is used, invalid settings are refused.
#[no_mangle]
pub extern "C" fn h_c19_tuner() {
    let ram = any_u64();
    let max = any_u64();
    let br = any_u64() as usize;
    let bf = any_u64() as usize;
    let (d, g, b) = (any_u16(), any_u16(), any_u16());
    assume(ram <= max);
    assume(br > 0 && bf > 0 && d > 0 && g > 0 && b > 0);
    let mut t = Tuner::new();
    // any order of the two limits, and of repeated settings
    if pick(2) == 0 { t.set_max_body_ram(ram).set_max_body(max); }
    else { t.set_max_body(max).set_max_body_ram(ram); }
    if pick(2) == 0 { t.set_buffer_size_ram(1).set_buffer_size_fs(1); }
    t.set_buffer_size_ram(br).set_buffer_size_fs(bf)
        .set_size_estimate_deflate(d).set_size_estimate_gzip(g)
        .set_size_estimate_brotli(b).set_temp_dir("/x");
    let t1 = t.finish();
    let t2 = t1.clone();
    for t in [&t1, &t2].iter() {
        check(t.max_body_ram() == ram, "max_body_ram");
        check(t.max_body() == max, "max_body");
        check(t.buffer_size_ram() == br, "buffer_size_ram");
        check(t.buffer_size_fs() == bf, "buffer_size_fs");
        check(t.size_estimate_deflate() == d, "size_estimate_deflate");
        check(t.size_estimate_gzip() == g, "size_estimate_gzip");
        check(t.size_estimate_brotli() == b, "size_estimate_brotli");
        check(t.temp_dir() == std::path::Path::new("/x"), "temp_dir");
    }
    let d = Tunables::default();
    check(d.max_body_ram() <= d.max_body(), "defaults are consistent");
    check(d.buffer_size_ram() > 0 && d.buffer_size_fs() > 0,
          "defaults are usable");
    out(t1.max_body());
    reach(1);
}

/// Settings not given have their documented default.
#[no_mangle]
pub extern "C" fn h_c19_defaults() {
    let set = pick(128);
    let has = |i: u8| set & 1 << i != 0;
    let (ram, max) = (any_u64(), any_u64());
    let (br, bf) = (any_u64() as usize, any_u64() as usize);
    let (d, g, b) = (any_u16(), any_u16(), any_u16());
    assume((br > 0) & (bf > 0) & (d > 0) & (g > 0) & (b > 0));
    let mut t = Tuner::new();
    let ram = if has(0) { ram } else { 192 * 1024 };
    let max = if has(1) { max } else { 1024 * 1024 * 1024 };
    assume(ram <= max);
    if has(0) { t.set_max_body_ram(ram); }
    if has(1) { t.set_max_body(max); }
    if has(2) { t.set_buffer_size_ram(br); }
    if has(3) { t.set_buffer_size_fs(bf); }
    if has(4) { t.set_size_estimate_deflate(d); }
    if has(5) { t.set_size_estimate_gzip(g); }
    if has(6) { t.set_size_estimate_brotli(b); }
    let t = t.finish();
    let or = |i, v: u64, d: u64| if has(i) { v } else { d };
    check(t.max_body_ram() == ram, "max_body_ram");
    check(t.max_body() == max, "max_body");
    check(t.buffer_size_ram() as u64 == or(2, br as u64, 8 * 1024),
          "buffer_size_ram");
    check(t.buffer_size_fs() as u64 == or(3, bf as u64, 64 * 1024),
          "buffer_size_fs");
    check(t.size_estimate_deflate() as u64 == or(4, d as u64, 4),
          "size_estimate_deflate");
    check(t.size_estimate_gzip() as u64 == or(5, g as u64, 5),
          "size_estimate_gzip");
    check(t.size_estimate_brotli() as u64 == or(6, b as u64, 6),
          "size_estimate_brotli");
    out(t.max_body());
    reach(1);
}

/// One of what a body can be in the hands of a caller.
#[allow(dead_code)]
enum Part {
    Sink(BodySink),
    Image(BodyImage),
    Apart(ExplodedImage),
    Gone,
}

/// Files of bodies are in the given directory, and are let go with the
/// last of their parts: in any order, and after any failure.
#[no_mangle]
pub extern "C" fn h_c07_release() {
    std::fs::create_dir(path("t")).expect("create_dir");
    let data = [any_u8(), any_u8(), any_u8()];
    put_file("src", &data);
    env::creating_in(path("t"));
    let before = env::held();
    let t = Tuner::new().set_temp_dir(path("t"))
        .set_max_body_ram(2).set_buffer_size_ram(2).set_buffer_size_fs(2)
        .finish();
    let ops = [Op::Write, Op::Open, Op::Seek, Op::Map, Op::Trunc];
    let f = pick(param(1, 5) as u8 + 1) as usize;
    let faulty = f > 0;
    if faulty {
        env::arm(&[Fault { op: ops[f - 1] as u8,
                           nth: pick(param(2, 2) as u8), what: env::FAIL }]);
    }
    let mut v: Vec<Part> = Vec::with_capacity(8);
    match pick(5) {
        0 => if let Ok(s) = BodySink::with_fs(t.temp_dir()) {
            v.push(Part::Sink(s));
        }
        1 => {
            let mut s = BodySink::with_ram_buffers(2);
            s.save(data.to_vec()).expect("save");
            s.write_back(t.temp_dir()).ok();
            v.push(Part::Sink(s));
        }
        2 => if let Ok(b) = BodyImage::read_from(&mut &data[..], 0, &t) {
            v.push(Part::Image(b));
        }
        3 => if let Ok(f) = std::fs::File::open(path("src")) {
            v.push(Part::Image(unsafe { BodyImage::from_file(f, 3) }));
        }
        _ => if let Ok(f) = std::fs::File::open(path("src")) {
            let r = ReadSlice::new(Arc::new(f), 0, 3);
            let r = r.subslice(1, 3);
            v.push(Part::Image(unsafe { BodyImage::from_read_slice(r) }));
        }
    }
    if v.is_empty() { reach(3); }
    for _ in 0..param(0, 3) {
        if v.is_empty() { break; }
        let k = if v.len() == 1 { 0 } else { pick(v.len() as u8) as usize };
        let p = std::mem::replace(&mut v[k], Part::Gone);
        match p {
            Part::Sink(mut s) => match pick(3) {
                0 => { s.write_all(&data).ok(); v[k] = Part::Sink(s); }
                1 => if let Ok(b) = s.prepare() { v[k] = Part::Image(b); },
                _ => {}
            },
            Part::Image(mut b) => {
                match pick(6) {
                    0 => v.push(Part::Image(b.clone())),
                    1 => { b.mem_map().ok(); }
                    2 => { b.gather(); }
                    3 => { content_of(&b, 2); }
                    4 => { v[k] = Part::Apart(b.explode()); continue; }
                    _ => continue,
                }
                v[k] = Part::Image(b);
            }
            Part::Apart(_) | Part::Gone => {}
        }
    }
    if v.iter().any(|p| match p {
        Part::Image(b) => b.is_mem_map(),
        _ => false,
    }) { reach(1); }
    if env::held() != before { reach(2); }
    if pick(2) == 1 { v.reverse(); }
    drop(v);
    env::disarm();
    check(env::held().0 == before.0, "all descriptors closed");
    check(env::held().1 == before.1, "all maps removed");
    check(names("t") == 0, "no file is left");
    check(env::created_outside() == 0, "files only where configured");
}

fn content_of(b: &BodyImage, step: usize) {
    let mut d = [0u8; 4];
    let mut r = b.reader();
    while let Ok(n) = r.read(&mut d[..step]) {
        if n == 0 { break; }
    }
}

harnesses!(h_c01_content, h_c01_many, h_c01_sizes, h_c02_limits, h_c02_scale,
           h_c03_read_from, h_c03_scale, h_c04_faults, h_c04_image_faults,
           h_c04_write_out, h_c05_readers, h_c05_large, h_c06_long, h_c06_far,
           h_c06_window, h_c06_pages, h_c07_release, h_c19_tuner, h_c19_defaults);
