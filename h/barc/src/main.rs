use barc::*;
use body_image::*;
use http::header::{HeaderMap, HeaderName, HeaderValue};
use std::convert::TryFrom;
use std::io::Read;
use sxrt::env;
use sxrt::*;

/// Reference for a record: header lists and bodies.
#[derive(Clone)]
struct Want {
    h: [Vec<(&'static str, Vec<u8>)>; 3],
    b: [Vec<u8>; 2],
}

const NAMES: [&str; 4] = ["a", "x-custom-header", "content-type", "host"];

/// Header value of n symbolic bytes, as can be represented in a header block:
/// no control characters, and no blanks at the ends.
fn any_value(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        let b = any_u8();
        assume((b >= 32) & (b != 127) | (b == 9));
        if i == 0 || i == n - 1 { assume((b != 32) & (b != 9)); }
        v.push(b);
    }
    v
}

fn any_headers(max: u8, vmax: u8, names: u8) -> Vec<(&'static str, Vec<u8>)> {
    let n = pick(max + 1);
    let mut v = Vec::with_capacity(n as usize);
    for _ in 0..n {
        let k = NAMES[pick(names) as usize];
        let l = pick(vmax + 1) as usize;
        v.push((k, any_value(l)));
    }
    v
}

fn hmap(l: &[(&'static str, Vec<u8>)]) -> HeaderMap {
    let mut m = HeaderMap::new();
    for (k, v) in l {
        m.append(HeaderName::from_static(k),
                 HeaderValue::from_bytes(v).expect("value"));
    }
    m
}

fn body(kind: u8, b: &[u8]) -> BodyImage {
    let mut s = if kind == 0 { BodySink::empty() }
                else { BodySink::with_fs(dir()).expect("with_fs") };
    let h = b.len() / 2;
    s.write_all(&b[..h]).expect("write");
    s.write_all(&b[h..]).expect("write");
    let mut b = s.prepare().expect("prepare");
    if kind == 2 { b.mem_map().expect("mem_map"); }
    b
}

fn rec(w: &Want, kind: u8) -> Record {
    Record {
        rec_type: RecordType::Dialog,
        meta: hmap(&w.h[0]),
        req_headers: hmap(&w.h[1]),
        req_body: body(kind, &w.b[0]),
        res_headers: hmap(&w.h[2]),
        res_body: body(kind, &w.b[1]),
    }
}

fn same_headers(m: &HeaderMap, l: &[(&'static str, Vec<u8>)]) {
    check(m.len() == l.len(), "number of headers");
    for n in NAMES.iter() {
        let mut it = m.get_all(*n).iter();
        for (k, v) in l {
            if k != n { continue; }
            match it.next() {
                Some(x) => {
                    check(x.as_bytes().len() == v.len(), "value length");
                    check(eq(x.as_bytes(), v), "value");
                }
                None => check(false, "header missing"),
            }
        }
        check(it.next().is_none(), "extra value");
    }
}

fn content(b: &BodyImage) -> Vec<u8> {
    let mut v = Vec::with_capacity(64);
    b.reader().read_to_end(&mut v).expect("read body");
    v
}

fn same_body(b: &BodyImage, w: &[u8]) {
    check(b.len() == w.len() as u64, "body length");
    let c = content(b);
    check(c.len() == w.len(), "body content length");
    check(eq(&c, w), "body content");
}

fn same(r: &Record, w: &Want) {
    check(r.rec_type == RecordType::Dialog, "record type");
    same_headers(&r.meta, &w.h[0]);
    same_headers(&r.req_headers, &w.h[1]);
    same_headers(&r.res_headers, &w.h[2]);
    same_body(&r.req_body, &w.b[0]);
    same_body(&r.res_body, &w.b[1]);
}

fn write(bf: &BarcFile, r: &Record, s: &dyn CompressStrategy)
    -> Result<u64, BarcError>
{
    bf.writer()?.write(r, s)
}

fn any_tune() -> Tunables {
    let ram = any_u64();
    assume(ram <= 1 << 40);
    Tuner::new().set_max_body_ram(ram).set_max_body(1 << 40)
        .set_temp_dir(dir()).finish()
}

/// Any record with any setting reads back the same.
#[no_mangle]
pub extern "C" fn h_b01_plain() {
    let nb = param(0, 3) as u8;
    let w = Want {
        h: [any_headers(1, 2, 2), any_headers(1, 1, 2),
            any_headers(2, 1, 2)],
        b: [any_bytes::<4>()[..pick(nb + 1) as usize].to_vec(),
            any_bytes::<4>()[..pick(nb + 1) as usize].to_vec()],
    };
    let r = rec(&w, pick(param(1, 2) as u8));
    let bf = BarcFile::new(path("x.barc"));
    let at = write(&bf, &r, &NoCompressStrategy::default()).expect("write");
    check(at == 0, "offset of first record");
    let t = any_tune();
    let mut rd = bf.reader().expect("reader");
    match rd.read(&t).expect("read") {
        Some(x) => {
            same(&x, &w);
            if x.res_body.is_ram() { reach(1); } else { reach(2); }
            out_bytes(&content(&x.res_body));
        }
        None => check(false, "record not found"),
    }
    let f = get_file("x.barc");
    check(rd.offset() == f.len() as u64, "reader at end");
    check(rd.read(&t).expect("read").is_none(), "no further record");
    reach(3);
}

/// Header names of symbolic bytes.
#[no_mangle]
pub extern "C" fn h_b01_names() {
    const TCHAR: &[u8] = b"!#$%&'*+-.^_`|~";
    let n = 1 + pick(param(0, 2) as u8) as usize;
    let mut name = Vec::with_capacity(n);
    for i in 0..n {
        let b = any_u8();
        let mut ok = ((b >= b'0') & (b <= b'9')) | ((b >= b'a') & (b <= b'z'));
        for c in TCHAR { ok |= b == *c; }
        // only one of the bytes is of any value
        if i == 1 { assume((b == b'a') | (b == b'-')); } else { assume(ok); }
        name.push(b);
    }
    let which = pick(3) as usize;
    let v = any_value(1);
    let mut hs = [HeaderMap::new(), HeaderMap::new(), HeaderMap::new()];
    hs[which].append(HeaderName::from_bytes(&name).expect("name"),
                     HeaderValue::from_bytes(&v).expect("value"));
    let [meta, req_headers, res_headers] = hs;
    let r = Record { meta, req_headers, res_headers, ..Record::default() };
    let bf = BarcFile::new(path("x.barc"));
    write(&bf, &r, &NoCompressStrategy::default()).expect("write");
    let x = bf.reader().expect("reader").read(&any_tune())
        .expect("read").expect("record");
    let hs = [&x.meta, &x.req_headers, &x.res_headers];
    for (i, h) in hs.iter().enumerate() {
        check(h.len() == (i == which) as usize, "number of headers");
        for (k, y) in h.iter() {
            check(k.as_str().len() == n, "name length");
            check(eq(k.as_str().as_bytes(), &name), "name");
            check(eq(y.as_bytes(), &v), "value");
        }
    }
    reach(1);
}

/// Many headers, and large bodies.
#[no_mangle]
pub extern "C" fn h_b01_many() {
    let case = pick(11) as usize;
    let n = [0usize, 1, 99, 128, 129, 300, 300, 2, 1, 1, 1][case];
    // the last is as long as the length field allows for
    let long = [0usize, 0, 0, 0, 0, 0, 0, 5000, 70000, 150_000,
                V2_MAX_HBLOCK - 12][case];
    // all of the same name, or all of different names
    let distinct = case == 6;
    let size = if long > 100_000 { 1 }
               else { [1usize, 4095, 4096, 70000][pick(4) as usize] };
    let which = pick(3) as usize;
    let mut hs = [HeaderMap::new(), HeaderMap::new(), HeaderMap::new()];
    let name = |i| if distinct {
        HeaderName::from_bytes(format!("x-{}", i).as_bytes()).expect("name")
    } else { HeaderName::from_static("x-many") };
    let value = |i| if long == 0 { HeaderValue::from(i as u32) } else {
        let mut v = vec![b'0' + i as u8; long];
        v[long - 1] = b'z';
        HeaderValue::from_bytes(&v).expect("value")
    };
    for i in 0..n { hs[which].append(name(i), value(i)); }
    let [meta, req_headers, res_headers] = hs;
    let rq = pattern(size, 0);
    let rs = pattern(size + 3, 1);
    let r = Record { meta, req_headers, res_headers,
                     req_body: body(0, &rq), res_body: body(0, &rs),
                     ..Record::default() };
    let bf = BarcFile::new(path("x.barc"));
    let s = strategy(pick(3));
    write(&bf, &r, &*s).expect("write");
    write(&bf, &Record::default(), &*s).expect("write");
    let t = any_tune();
    let mut rd = bf.reader().expect("reader");
    let x = rd.read(&t).expect("read").expect("record");
    let hs = [&x.meta, &x.req_headers, &x.res_headers];
    for (i, h) in hs.iter().enumerate() {
        let n = if i == which { n } else { 0 };
        check(h.len() == n, "number of headers");
        if distinct {
            for k in 0..n {
                check(h.get(name(k)) == Some(&value(k)), "value by name");
            }
            continue;
        }
        let mut at = 0;
        for v in h.get_all("x-many").iter() {
            check(*v == value(at), "value");
            at += 1;
        }
        check(at == n, "values");
    }
    same_body(&x.req_body, &rq);
    same_body(&x.res_body, &rs);
    check(rd.read(&t).expect("read").is_some(), "next record");
    check(rd.read(&t).expect("read").is_none(), "end");
    reach(1);
}

/// Bytes that are not the same in any two places close to each other.
fn pattern(n: usize, salt: u32) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut x = 12345u32 + salt * 77;
    for i in 0..n {
        if i & 63 < 40 { x = x.wrapping_mul(1103515245).wrapping_add(12345); }
        v.push((x >> 16) as u8);
    }
    v
}

fn strategy(kind: u8) -> Box<dyn CompressStrategy> {
    level(kind, [0, 1, 6, 9][param(2, 1) as usize])
}

fn level(kind: u8, lv: u32) -> Box<dyn CompressStrategy> {
    match kind {
        0 => Box::new(NoCompressStrategy::default()),
        1 => Box::new(GzipCompressStrategy::default().set_min_len(0)
                      .set_check_identity(false).set_compression_level(lv)),
        _ => Box::new(BrotliCompressStrategy::default().set_min_len(0)
                      .set_check_identity(false).set_compression_level(lv)),
    }
}

fn text() -> (&'static str, Vec<u8>) {
    ("content-type", b"text/plain".to_vec())
}

/// Compressed records: any structure and setting, given content.
#[no_mangle]
pub extern "C" fn h_b02_gzip() { compressed(1) }

#[no_mangle]
pub extern "C" fn h_b02_brotli() { compressed(2) }

fn compressed(kind: u8) {
    let s = level(kind, [1, 0, 6, 9][pick(param(0, 2) as u8) as usize]);
    let sz = [0usize, 3, 5000, 20000];
    let ns = param(1, 3) as u8;
    let rq = sz[pick(ns) as usize];
    let rs = sz[pick(ns) as usize];
    let run = pick(2) == 1;
    let data = |n, k| if run { vec![b'r' + k as u8; n] } else { pattern(n, k) };
    let mut w = Want {
        h: [vec![], vec![text()], vec![text()]],
        b: [data(rq, 0), data(rs, 1)],
    };
    let nh = pick(4);
    if nh & 1 == 1 { w.h[0].push(("x-custom-header", b"v a:l".to_vec())); }
    if nh & 2 == 2 { w.h[2].push(("a", vec![])); }
    let r = rec(&w, pick(3));
    let bf = BarcFile::new(path("x.barc"));
    write(&bf, &r, &*s).expect("write");
    let ram = any_u64();
    assume(ram <= 1 << 40);
    let mut t = Tuner::new();
    t.set_max_body_ram(ram).set_max_body(1 << 40).set_temp_dir(dir());
    match pick(3) {
        0 => {}
        1 => { t.set_buffer_size_ram(100).set_buffer_size_fs(100); }
        _ => { t.set_buffer_size_ram(24).set_buffer_size_fs(4096); }
    }
    let t = t.finish();
    let mut rd = bf.reader().expect("reader");
    match rd.read(&t).expect("read") {
        Some(x) => {
            same(&x, &w);
            if x.res_body.is_ram() { reach(1); } else { reach(2); }
        }
        None => check(false, "record not found"),
    }
    let f = get_file("x.barc");
    if f[20] != b'P' { reach(4); }
    check(rd.offset() == f.len() as u64, "reader at end");
    check(rd.read(&t).expect("read").is_none(), "no further record");
    reach(3);
}

/// All sizes of small bodies with buffers around these sizes.
#[no_mangle]
pub extern "C" fn h_b02_small() {
    let s = strategy(1 + pick(2));
    let n = pick(param(0, 10) as u8) as usize;
    let o = [0, 1, 5][pick(3) as usize];
    let (rq, rs) = if pick(2) == 0 { (n, o) } else { (o, n) };
    let w = Want {
        h: [vec![], vec![text()], vec![text()]],
        b: [pattern(rq, 0), pattern(rs, 1)],
    };
    let bf = BarcFile::new(path("x.barc"));
    write(&bf, &rec(&w, 0), &*s).expect("write");
    let ram = any_u64();
    assume(ram <= 1 << 40);
    let t = Tuner::new().set_max_body_ram(ram).set_max_body(1 << 40)
        .set_buffer_size_ram(32)
        .set_buffer_size_fs([1, 4, 64][pick(3) as usize])
        .set_temp_dir(dir()).finish();
    let mut rd = bf.reader().expect("reader");
    match rd.read(&t).expect("read") {
        Some(x) => {
            same(&x, &w);
            if x.req_body.is_ram() { reach(1); } else { reach(2); }
        }
        None => check(false, "record not found"),
    }
    check(rd.offset() == get_file("x.barc").len() as u64, "reader at end");
    check(rd.read(&t).expect("read").is_none(), "no further record");
}

/// A symbolic byte within the compressed content.
#[no_mangle]
pub extern "C" fn h_b02_byte() {
    let s = strategy(1 + pick(2));
    let n = param(0, 3) as usize;
    let mut b = pattern(n, 1);
    let at = pick(n as u8) as usize;
    b[at] = any_u8();
    let w = Want {
        h: [vec![], vec![text()], vec![text()]],
        b: if pick(2) == 0 { [b, vec![]] } else { [vec![], b] },
    };
    let bf = BarcFile::new(path("x.barc"));
    write(&bf, &rec(&w, 0), &*s).expect("write");
    let mut rd = bf.reader().expect("reader");
    let t = Tuner::new().set_temp_dir(dir()).finish();
    match rd.read(&t).expect("read") {
        Some(x) => same(&x, &w),
        None => check(false, "record not found"),
    }
    check(rd.read(&t).expect("read").is_none(), "no further record");
    reach(1);
}

/// One of some shapes of record, with symbolic content when not compressed.
fn shape(k: u8, sym: bool, mark: u8) -> Want {
    let c = if sym { any_bytes::<2>() } else { [mark, b'!'] };
    match k {
        0 => Want { h: [vec![], vec![], vec![]], b: [vec![], vec![]] },
        1 => Want { h: [vec![("a", vec![b'm', mark])], vec![text()],
                        vec![text(), ("host", vec![mark])]],
                    b: [vec![c[0]], c.to_vec()] },
        _ => Want { h: [vec![], vec![], vec![]], b: [vec![], c.to_vec()] },
    }
}

/// Any history of writes, reads, and reopened files.
#[no_mangle]
pub extern "C" fn h_b03_history() {
    let n = param(0, 3) as usize;
    let modes = param(1, 3) as u8;
    let mut bf = BarcFile::new(path("x.barc"));
    let mut other = None;
    drop(bf.writer().expect("writer"));
    let t = any_tune();
    let mut live = bf.reader().expect("reader");
    check(live.read(&t).expect("read").is_none(), "empty file");
    let mut seen = 0;
    let mut ws: Vec<Want> = Vec::with_capacity(4);
    let mut at: Vec<u64> = Vec::with_capacity(4);
    for i in 0..n {
        let m = pick(modes);
        let w = shape(pick(3), m == 0, b'0' + i as u8);
        let len = get_file("x.barc").len() as u64;
        let o = write(&bf, &rec(&w, 0), &*strategy(m)).expect("write");
        check(o == len, "record starts where the file ended");
        ws.push(w);
        at.push(o);
        match pick(3) {
            0 => {}
            1 => {
                // the reader opened at first catches up
                while seen < ws.len() {
                    check(live.offset() == at[seen], "offset of next");
                    let x = live.read(&t).expect("read").expect("record");
                    same(&x, &ws[seen]);
                    seen += 1;
                }
                let e = live.offset();
                check(e == get_file("x.barc").len() as u64, "at end");
                check(live.read(&t).expect("read").is_none(), "no more");
                check(live.offset() == e, "stays at end");
                reach(1);
            }
            _ => {
                // from here on by another instance, or the one before
                let b = other.take()
                    .unwrap_or_else(|| BarcFile::new(path("x.barc")));
                other = Some(std::mem::replace(&mut bf, b));
            }
        }
    }
    // random access, in any order
    let mut rd = bf.reader().expect("reader");
    let first = pick(n as u8) as usize;
    for k in 0..n {
        let i = (first + k * 2) % n;
        rd.seek(at[i]).expect("seek");
        let x = rd.read(&t).expect("read").expect("record");
        same(&x, &ws[i]);
        let next = if i + 1 < n { at[i + 1] }
                   else { get_file("x.barc").len() as u64 };
        check(rd.offset() == next, "offset after read");
    }
    // sequential
    rd.seek(0).expect("seek");
    for w in ws.iter() {
        let x = rd.read(&t).expect("read").expect("record");
        same(&x, w);
    }
    check(rd.read(&t).expect("read").is_none(), "no more");
    reach(2);
}

/// A record read from an archive, with bodies that may be left in its file,
/// written again to the same or another archive.
#[no_mangle]
pub extern "C" fn h_b03_again() {
    let (m, z) = (pick(3), pick(3));
    let w = shape(1 + pick(2), m + z == 0, b'r');
    let bf = BarcFile::new(path("x.barc"));
    write(&bf, &rec(&w, 0), &*strategy(m)).expect("write");
    let t = any_tune();
    let mut rd = bf.reader().expect("reader");
    let mut x = rd.read(&t).expect("read").expect("record");
    match pick(3) {
        0 => {}
        1 => if !x.res_body.is_ram() { x.res_body.mem_map().expect("map"); },
        _ => { content(&x.res_body); }
    }
    let to = if pick(2) == 0 { BarcFile::new(path("y.barc")) }
             else if pick(2) == 0 { BarcFile::new(path("x.barc")) }
             else { bf };
    let s = strategy(z);
    let a = write(&to, &x, &*s).expect("write");
    let b = write(&to, &x, &*s).expect("write");
    same(&x, &w);
    drop(x);
    let mut rd = to.reader().expect("reader");
    for at in [a, b].iter() {
        rd.seek(*at).expect("seek");
        same(&rd.read(&t).expect("read").expect("record"), &w);
    }
    check(rd.read(&t).expect("read").is_none(), "no more");
    reach(1);
}

/// Records far into a file, around 32 bit boundaries of positions.
#[no_mangle]
pub extern "C" fn h_b03_far() {
    const HOLES: [u64; 4] = [(1 << 32) - 60, (1 << 32) - 1, 1 << 32,
                             (1 << 36) + 5];
    let hole = HOLES[pick(4) as usize];
    put_sparse("x.barc", b"", hole, b"");
    let bf = BarcFile::new(path("x.barc"));
    let t = any_tune();
    let mut ws: Vec<Want> = Vec::with_capacity(2);
    let mut at: Vec<u64> = Vec::with_capacity(2);
    for i in 0..2 {
        let m = pick(3);
        let w = shape(1 + pick(2), m == 0, b'0' + i);
        at.push(write(&bf, &rec(&w, 0), &*strategy(m)).expect("write"));
        ws.push(w);
    }
    check(at[0] == hole, "record starts where the file ended");
    let mut rd = bf.reader().expect("reader");
    let first = pick(2) as usize;
    rd.seek(at[first]).expect("seek");
    check(rd.offset() == at[first], "offset sought");
    for i in first..2 {
        check(rd.offset() == at[i], "offset of next");
        let x = rd.read(&t).expect("read").expect("record");
        same(&x, &ws[i]);
    }
    check(rd.read(&t).expect("read").is_none(), "no more");
    out(rd.offset());
    reach(1);
}

/// A record with a body of more than 32 bits of length, and one after it.
#[no_mangle]
pub extern "C" fn h_b01_huge() {
    const HOLES: [u64; 4] = [(1 << 32) - 4, (1 << 32) - 2, 1 << 32,
                             (1 << 35) + 77];
    let hole = HOLES[pick(4) as usize];
    let req = pick(2) == 0;
    let c = any_bytes::<4>();
    let len = hole + 2;
    let (req_b, all) = if req { (len + 2, len + 2 + 3) }
                       else { (3, 3 + len + 2) };
    let head = format!(
        "BARC2 {:012x} DP {:05x} {:05x} {:010x} {:05x}\r\n\r\n",
        all + 7, 0, 7, req_b, 0);
    let mut before = head.into_bytes();
    let mut after = Vec::with_capacity(16);
    before.extend_from_slice(b"a:b\r\n\r\n");
    if req {
        before.push(c[0]);
        after.extend_from_slice(&[c[1], b'\r', b'\n', c[2], b'\r', b'\n']);
    } else {
        before.extend_from_slice(&[c[2], b'\r', b'\n', c[0]]);
        after.extend_from_slice(&[c[1], b'\r', b'\n']);
    }
    put_sparse("x.barc", &before, hole, &after);
    let size = before.len() as u64 + hole + after.len() as u64;
    let bf = BarcFile::new(path("x.barc"));
    let w = shape(1, true, b'n');
    let at = write(&bf, &rec(&w, 0), &NoCompressStrategy::default())
        .expect("write");
    check(at == size, "record starts where the file ended");
    let ram = any_u64();
    assume(ram < hole);
    let t = Tuner::new().set_max_body_ram(ram).set_max_body(1 << 40)
        .set_temp_dir(dir()).finish();
    let mut rd = bf.reader().expect("reader");
    let x = rd.read(&t).expect("read").expect("record");
    check(rd.offset() == size, "offset after read");
    check(x.req_headers.len() == 1 && x.res_headers.is_empty(), "headers");
    let (big, small) = if req { (x.req_body, x.res_body) }
                       else { (x.res_body, x.req_body) };
    same_body(&small, &c[2..3]);
    check(big.len() == len, "body length");
    check(!big.is_ram(), "body left in the file");
    let mut o = [9u8; 3];
    big.reader().read_exact(&mut o[..2]).expect("read");
    if let ExplodedImage::FsRead(mut rs) = big.explode() {
        use std::io::Seek;
        check(rs.len() == len, "body length");
        rs.seek(std::io::SeekFrom::Start(len - 1)).expect("seek");
        check(rs.read(&mut o[2..]).expect("read") == 1, "body end");
        check(rs.read(&mut [0u8; 1]).expect("read") == 0, "body end");
    } else {
        check(false, "body form");
    }
    check(eq(&o, &[c[0], 0, c[1]]), "body content");
    let x = rd.read(&t).expect("read").expect("record");
    same(&x, &w);
    check(rd.read(&t).expect("read").is_none(), "no more");
    reach(1);
}

struct Conc { rd: BarcReader, t: Tunables, old: Want, new: Want, ran: bool,
              got: bool }

static mut CONC: Option<Conc> = None;

#[allow(static_mut_refs)]
fn conc_st() -> &'static mut Conc { unsafe { CONC.as_mut().unwrap() } }

/// Reads of all of a file, as it is during a write.
fn during() {
    let c = conc_st();
    c.ran = true;
    // a reader from before
    match c.rd.read(&c.t) {
        Ok(Some(x)) => {
            same(&x, &c.new);
            c.got = true;
            reach(2);
        }
        Ok(None) => reach(3),
        Err(_) => reach(4),
    }
    // snapshot, as left by a crash
    let f = get_file("x.barc");
    put_file("y.barc", &f);
    // another reader
    let bf = BarcFile::new(path("x.barc"));
    let mut rd = bf.reader().expect("reader");
    let x = rd.read(&c.t).expect("read").expect("record");
    same(&x, &c.old);
    if let Ok(Some(x)) = rd.read(&c.t) {
        same(&x, &c.new);
        check(rd.offset() == f.len() as u64, "at end");
    }
}

/// Readers at any step of a write, and files left by a crash at any step.
#[no_mangle]
pub extern "C" fn h_b04_step() {
    let m = pick(param(1, 3) as u8);
    let old = shape(1, true, b'o');
    let new = shape(1, m == 0, b'n');
    let bf = BarcFile::new(path("x.barc"));
    write(&bf, &rec(&old, 0), &NoCompressStrategy::default()).expect("write");
    let t = any_tune();
    let mut rd = bf.reader().expect("reader");
    let x = rd.read(&t).expect("read").expect("record");
    same(&x, &old);
    let r = rec(&new, 0);
    let nth = pick(param(0, 32) as u8) as usize;
    let part = [0usize, 1, 6, 18, 20, 53, 1000][pick(7) as usize];
    unsafe {
        CONC = Some(Conc { rd, t, old, new, ran: false, got: false });
    }
    env::arm(&[]);
    env::hook_write(nth, part, during);
    let at = write(&bf, &r, &*strategy(m)).expect("write");
    env::disarm();
    let c = conc_st();
    if !c.ran { kill(); }
    // the reader from before resumes
    if !c.got {
        check(c.rd.offset() == at, "reader stays at the unfinished record");
        let x = c.rd.read(&c.t).expect("read").expect("record");
        same(&x, &c.new);
    }
    check(c.rd.read(&c.t).expect("read").is_none(), "no more");
    reach(1);
    // after a crash
    let bf = BarcFile::new(path("y.barc"));
    let later = shape(2, true, b'l');
    let at = write(&bf, &rec(&later, 0), &NoCompressStrategy::default())
        .expect("write");
    let mut rd = bf.reader().expect("reader");
    let x = rd.read(&c.t).expect("read").expect("record");
    same(&x, &c.old);
    let o = rd.offset();
    if let Ok(Some(x)) = rd.read(&c.t) {
        // what was being written is either complete or not there
        same(&x, if o == at { &later } else { &c.new });
    }
    rd.seek(at).expect("seek");
    let x = rd.read(&c.t).expect("read").expect("record");
    same(&x, &later);
    check(rd.read(&c.t).expect("read").is_none(), "no more");
    reach(5);
}

/// The length stated in a part of a record head.
fn stated(b: &[u8]) -> u64 {
    let mut v = 0;
    for &c in b {
        check(c.is_ascii_hexdigit(), "head of a record has lengths");
        v = v << 4 | (if c <= b'9' { c - b'0' } else { (c | 32) - b'a' + 10 })
            as u64;
    }
    v
}

/// Outcome of reads from any content: a record, the end, or an error, where
/// only a record moves the reader, and its bodies can be read.
fn scan(name: &str, t: &Tunables, steps: usize, plain: bool) -> usize {
    let bf = BarcFile::new(path(name));
    let f = get_file(name);
    let end = f.len() as u64;
    let mut rd = bf.reader().expect("reader");
    for i in 0..steps {
        let at = rd.offset();
        match rd.read(t) {
            Ok(Some(x)) => {
                let head = &f[at as usize..];
                let len = stated(&head[6..18]);
                let req = stated(&head[34..44]);
                let parts = stated(&head[22..27]) + stated(&head[28..33])
                    + req + stated(&head[45..50]);
                check(!plain || parts <= len, "parts within the length");
                let crlf = if head[20] == b'P' && req > 0 { 2 } else { 0 };
                check(x.req_body.len() + crlf == req, "request body length");
                check(rd.offset() == at + V2_HEAD_SIZE as u64 + len,
                      "advanced by the length");
                // a decoder may not need all of the stated length
                check(!plain || rd.offset() <= end, "not beyond end");
                for b in &[&x.req_body, &x.res_body] {
                    let c = content(b);
                    check(c.len() as u64 == b.len(), "body of stated length");
                }
                reach(1);
            }
            Ok(None) => {
                check(rd.offset() == at, "not moved at end");
                reach(2);
                return i;
            }
            Err(_) => {
                check(rd.offset() == at, "not moved by error");
                reach(3);
                return i;
            }
        }
    }
    steps
}

fn small_tune() -> Tunables {
    let ram = any_u64();
    assume(ram <= 1 << 16);
    Tuner::new().set_max_body_ram(ram).set_max_body(1 << 20)
        .set_temp_dir(dir()).finish()
}

/// A compressed record, of which the head has other lengths than written.
#[no_mangle]
pub extern "C" fn h_b05_decoded() {
    let k = pick(2);
    let w = Want {
        h: [vec![], vec![text()], if k == 0 { vec![] } else { vec![text()] }],
        b: [pattern(40, 0), if k == 0 { vec![] } else { pattern(30, 1) }],
    };
    let bf = BarcFile::new(path("x.barc"));
    write(&bf, &rec(&w, 0), &*strategy(1 + pick(2))).expect("write");
    let mut f = get_file("x.barc");
    let total: u64 = stated(&f[22..27]) + stated(&f[28..33])
        + stated(&f[34..44]) + stated(&f[45..50]) + w.b[1].len() as u64;
    let (a, z) = [(22, 27), (28, 33), (34, 44), (45, 50)][pick(4) as usize];
    let was = stated(&f[a..z]);
    let now = match pick(6) {
        0 => 0,
        1 => was + 1,
        2 => was + 30,
        3 => was + 200,
        4 => 0xfffff,
        _ => if was > 0 { was - 1 } else { 7 },
    };
    let d = format!("{:0n$x}", now, n = z - a);
    f[a..z].copy_from_slice(d.as_bytes());
    let fits = now <= was || total - was + now <= total;
    put_file("x.barc", &f);
    let n = scan("x.barc", &small_tune(), 2, false);
    check(n == 0 || fits, "parts beyond the decoded length");
    if n > 0 { reach(4); } else if !fits { reach(5); }
}

/// A head of any lengths, followed by symbolic bytes.
#[no_mangle]
pub extern "C" fn h_b05_lengths() {
    const L: [u64; 8] = [0, 1, 2, 3, 4, 6, 0xfffff, 0xff_ffff_ffff];
    let n = param(0, 6) as usize;
    let k = param(1, 6) as u8;
    let one = pick(5);
    let mut l = [0u64; 5];
    for (i, x) in l.iter_mut().enumerate() {
        let i = i as u8;
        // one length is of any kind, others of few
        *x = if i == one { L[pick(if i == 0 || i == 3 { 8 } else { 7 }) as usize] }
             else if i == (one + 1) % 5 { L[pick(k) as usize] }
             else { L[(pick(2) * 3) as usize] };
    }
    let c = [b'P', b'P', b'Z', b'B'][pick(param(2, 2) as u8) as usize];
    let mut f = format!("BARC2 {:012x} D{} {:05x} {:05x} {:010x} {:05x}\r\n\r\n",
                        l[0], c as char, l[1], l[2], l[3], l[4]).into_bytes();
    let sym = any_bytes::<8>();
    f.extend_from_slice(&sym[..n]);
    put_file("x.barc", &f);
    scan("x.barc", &small_tune(), 2, c == b'P');
}

/// A well formed file with any one byte replaced.
#[no_mangle]
pub extern "C" fn h_b05_byte() {
    let w = shape(1, false, b'w');
    let m = pick(param(1, 3) as u8);
    let bf = BarcFile::new(path("x.barc"));
    let o = write(&bf, &rec(&w, 0), &*strategy(m)).expect("write");
    write(&bf, &rec(&shape(2, false, b'x'), 0), &NoCompressStrategy::default())
        .expect("write");
    check(o == 0, "first");
    let mut f = get_file("x.barc");
    let i = pick(std::cmp::min(f.len(), 255) as u8) as usize;
    // one bit, where the content is compressed
    f[i] = if m > 0 { f[i] ^ (1 << pick(8)) }
           else if i >= V2_HEAD_SIZE { any_u8() }
           else {
               let b = any_u8();
               if b.is_ascii_hexdigit() { conc(b as u64) as u8 } else { b }
           };
    put_file("x.barc", &f);
    scan("x.barc", &small_tune(), 3, m == 0);
}

/// A well formed file cut off anywhere.
#[no_mangle]
pub extern "C" fn h_b05_cut() {
    let m = pick(param(1, 3) as u8);
    let big = pick(2) == 1;
    let mut w = shape(1, m == 0 && !big, b'w');
    if big { w.b = [pattern(20, 0), pattern(90, 1)]; }
    let bf = BarcFile::new(path("x.barc"));
    write(&bf, &rec(&shape(2, true, b'x'), 0), &NoCompressStrategy::default())
        .expect("write");
    let second = write(&bf, &rec(&w, 0), &*strategy(m)).expect("write")
        as usize;
    let f = get_file("x.barc");
    let cut = second + pick((f.len() - second) as u8) as usize;
    put_file("x.barc", &f[..cut]);
    let n = scan("x.barc", &small_tune(), 3, true);
    check(n == 1, "a partial record is not returned");
    reach(4);
}

/// Failed writes leave the file as it was.
#[no_mangle]
pub extern "C" fn h_b06_faults() {
    let m = pick(param(1, 3) as u8);
    let old = shape(1, true, b'o');
    let mut new = shape(1, false, b'n');
    if pick(2) == 1 { new.b[1] = pattern(6000, 0); }
    let bf = BarcFile::new(path("x.barc"));
    write(&bf, &rec(&old, 0), &NoCompressStrategy::default()).expect("write");
    let r = rec(&new, pick(2));
    let before = get_file("x.barc");
    let nth = pick(param(0, 40) as u8);
    let what = [env::FAIL, env::INTR, env::SHORT][pick(3) as usize];
    env::arm(&[env::Fault { op: env::Op::Write as u8, nth, what }]);
    let res = write(&bf, &r, &*strategy(m));
    let hit = env::count(env::Op::Write) > nth as usize;
    env::disarm();
    if !hit { kill(); }
    let t = any_tune();
    let mut ws = vec![old];
    match res {
        Ok(at) => {
            check(at == before.len() as u64, "offset");
            check(what != env::FAIL, "failure reported");
            ws.push(new);
            reach(1);
        }
        Err(_) => {
            // encoders may report interruption
            check(what == env::FAIL || (m > 0 && what == env::INTR),
                  "only failures are reported");
            reach(2);
        }
    }
    // a later write is not affected
    let later = shape(2, true, b'l');
    let at = write(&bf, &rec(&later, 0), &NoCompressStrategy::default())
        .expect("write");
    ws.push(later);
    let mut rd = bf.reader().expect("reader");
    for w in ws.iter() {
        let x = rd.read(&t).expect("read").expect("record");
        same(&x, w);
    }
    check(rd.read(&t).expect("read").is_none(), "no more");
    rd.seek(at).expect("seek");
    let x = rd.read(&t).expect("read").expect("record");
    same(&x, &ws[ws.len() - 1]);
    reach(3);
}

/// Faults while reading are reported, or without effect.
#[no_mangle]
pub extern "C" fn h_b06_read_faults() {
    let m = pick(param(1, 3) as u8);
    let w = shape(1, m == 0, b'o');
    let bf = BarcFile::new(path("x.barc"));
    for _ in 0..2 {
        write(&bf, &rec(&w, 0), &*strategy(m)).expect("write");
    }
    let t = any_tune();
    let mut rd = bf.reader().expect("reader");
    let nth = pick(param(0, 12) as u8);
    let what = [env::FAIL, env::INTR, env::SHORT, env::SHORT + 4]
        [pick(4) as usize];
    env::arm(&[env::Fault { op: env::Op::Read as u8, nth, what }]);
    let res = rd.read(&t);
    let hit = env::count(env::Op::Read) > nth as usize;
    env::disarm();
    if !hit { kill(); }
    match res {
        Ok(Some(x)) => {
            check(what != env::FAIL, "failure reported");
            same(&x, &w);
            reach(1);
        }
        Ok(None) => check(false, "not at end"),
        Err(_) => {
            check(what == env::FAIL, "only failures are reported");
            check(rd.offset() == 0, "not moved");
            let x = rd.read(&t).expect("read").expect("record");
            same(&x, &w);
            reach(2);
        }
    }
    let x = rd.read(&t).expect("read").expect("record");
    same(&x, &w);
    check(rd.read(&t).expect("read").is_none(), "no more");
}

/// The same, with larger bodies that arrive in pieces.
#[no_mangle]
pub extern "C" fn h_b06_slow_read() {
    let m = pick(param(1, 3) as u8);
    let mut w = shape(1, false, b'o');
    w.b = [pattern(200, 0), pattern(150, 1)];
    let bf = BarcFile::new(path("x.barc"));
    write(&bf, &rec(&w, 0), &*strategy(m)).expect("write");
    let ram = any_u64();
    assume(ram <= 1 << 40);
    let t = Tuner::new().set_max_body_ram(ram).set_max_body(1 << 40)
        .set_buffer_size_ram(48).set_buffer_size_fs(64)
        .set_temp_dir(dir()).finish();
    let nth = pick(param(0, 14) as u8);
    let what = [env::FAIL, env::INTR][pick(2) as usize];
    let mut v = Vec::with_capacity(24);
    for k in 0..24 {
        v.push(env::Fault { op: env::Op::Read as u8, nth: k,
                            what: if k == nth { what }
                                  else { env::SHORT + 39 } });
    }
    let mut rd = bf.reader().expect("reader");
    env::arm(&v);
    let res = rd.read(&t);
    let hit = env::count(env::Op::Read) > nth as usize;
    env::disarm();
    if !hit { kill(); }
    match res {
        Ok(Some(x)) => {
            check(what != env::FAIL, "failure reported");
            same(&x, &w);
            reach(1);
        }
        Ok(None) => check(false, "not at end"),
        Err(_) => {
            check(what == env::FAIL, "only failures are reported");
            check(rd.offset() == 0, "not moved");
            let x = rd.read(&t).expect("read").expect("record");
            same(&x, &w);
            reach(2);
        }
    }
    check(rd.read(&t).expect("read").is_none(), "no more");
}

const ENC: [Encoding; 6] = [
    Encoding::Chunked, Encoding::Deflate, Encoding::Gzip, Encoding::Brotli,
    Encoding::Compress, Encoding::Identity
];

/// A dialog survives conversion to a record, its storage, and back.
#[no_mangle]
pub extern "C" fn h_b07_dialog() {
    let focus = pick(5);
    let method = if focus == 0 {
        let k = pick(10);
        if k < 9 {
            http::Method::from_bytes([
                &b"GET"[..], b"POST", b"PUT", b"DELETE", b"HEAD", b"OPTIONS",
                b"CONNECT", b"PATCH", b"TRACE"][k as usize]).expect("method")
        } else {
            let b = any_bytes::<2>();
            for b in &b {
                let l = *b | 32;
                assume((l >= b'a') & (l <= b'z') & (*b < 128));
            }
            http::Method::from_bytes(&b).expect("method")
        }
    } else { http::Method::GET };
    let url: http::Uri = if focus == 1 {
        let mut u = b"http://h:8/".to_vec();
        let k = pick(3) as usize;
        if k == 2 { u.push(b'?'); }
        for b in &any_bytes::<2>()[..k] {
            assume((*b > b' ') & (*b < 127));
            u.push(*b);
        }
        match http::Uri::try_from(&u[..]) {
            Ok(u) => u,
            Err(_) => kill(),
        }
    } else { "/rel".parse().expect("uri") };
    let version = if focus == 2 {
        [http::Version::HTTP_09, http::Version::HTTP_10,
         http::Version::HTTP_11, http::Version::HTTP_2,
         http::Version::HTTP_3][pick(5) as usize]
    } else { http::Version::HTTP_11 };
    let status = if focus == 3 {
        let c = any_u16();
        assume((c >= 100) & (c < 1000));
        http::StatusCode::from_u16(c).expect("status")
    } else { http::StatusCode::OK };
    let mut dec = Vec::with_capacity(4);
    if focus == 4 {
        let n = pick(7) as usize;
        let mut k = 0;
        for i in 0..n {
            k = if i < 2 || n == 3 { pick(6) as usize } else { (k + i) % 6 };
            dec.push(ENC[k]);
        }
    }
    let w = shape(1, true, b'm');
    let d = Dialog::new(
        Prolog { method: method.clone(), url: url.clone(),
                 req_headers: hmap(&w.h[1]), req_body: body(0, &w.b[0]) },
        Epilog { version, status, res_decoded: dec.clone(),
                 res_headers: hmap(&w.h[2]), res_body: body(0, &w.b[1]) });
    let mut r = Record::try_from(d).expect("record");
    check(r.rec_type == RecordType::Dialog, "type");
    if pick(2) == 1 {
        let bf = BarcFile::new(path("x.barc"));
        write(&bf, &r, &NoCompressStrategy::default()).expect("write");
        r = bf.reader().expect("reader").read(&any_tune()).expect("read")
            .expect("record");
    }
    match Dialog::try_from(r) {
        Ok(d) => {
            check(*d.method() == method, "method");
            check(*d.url() == url, "url");
            check(d.res_version() == version, "version");
            check(d.res_status() == status, "status");
            check(*d.res_decoded() == dec, "decoded");
            same_headers(d.req_headers(), &w.h[1]);
            same_headers(d.res_headers(), &w.h[2]);
            same_body(d.req_body(), &w.b[0]);
            same_body(d.res_body(), &w.b[1]);
            reach(1);
        }
        Err(_) => check(false, "converts back"),
    }
}

/// Conversion of any record gives a dialog of what it states, or an error.
#[no_mangle]
pub extern "C" fn h_b07_any() {
    use Encoding::*;
    const LISTS: [(&[u8], &[Encoding]); 6] = [
        (b"gzip,br", &[Gzip, Brotli]),
        (b"chunked, gzip, identity", &[Chunked, Gzip, Identity]),
        (b"deflate ,identity", &[Deflate, Identity]),
        (b"br ,\tcompress", &[Brotli, Compress]),
        (b"gzip, gzip, gzip, gzip, identity",
         &[Gzip, Gzip, Gzip, Gzip, Identity]),
        (b"identity", &[Identity])];
    let focus = pick(7);
    let list = if focus == 6 { pick(6) as usize } else { 0 };
    let mut meta = HeaderMap::new();
    let put = |m: &mut HeaderMap, n: HeaderName, v: &[u8]| {
        m.append(n, HeaderValue::from_bytes(v).expect("value"));
    };
    let v = any_value(param(0, 3) as usize);
    let k = if focus == 5 { 0 } else { pick(v.len() as u8 + 1) as usize };
    let v = &v[..k];
    let skip = if focus == 5 { pick(4) } else { 9 };
    if skip != 0 { put(&mut meta, hname_meta_url(),
                       if focus == 0 { v } else { b"/x" }); }
    if skip != 1 { put(&mut meta, hname_meta_method(),
                       if focus == 1 { v } else { b"GET" }); }
    let ver = [b"HTTP/0.9", b"HTTP/1.0", b"HTTP/1.1", b"HTTP/2.0",
               b"HTTP/3.0"];
    let vi = pick(if focus == 2 { 6 } else { 1 }) as usize;
    if skip != 2 { put(&mut meta, hname_meta_res_version(),
                       if vi == 5 { v } else { &ver[vi][..] }); }
    if skip != 3 { put(&mut meta, hname_meta_res_status(),
                       if focus == 3 { v } else { b"200 OK" }); }
    if focus == 4 { put(&mut meta, hname_meta_res_decoded(), v); }
    if focus == 6 {
        put(&mut meta, hname_meta_res_decoded(), LISTS[list].0);
    }
    let digits = v.len() >= 3
        && v[..3].iter().fold(true, |a, b| a & (*b >= b'0') & (*b <= b'9'))
        && v[0] > b'0';
    let valid = match focus {
        0 => http::Uri::try_from(v).is_ok(),
        1 => http::Method::from_bytes(v).is_ok(),
        2 => vi < 5,
        3 => digits,
        4 => v == b"br",
        5 => false,
        _ => true,
    };
    let r = Record { meta, ..Record::default() };
    match Dialog::try_from(r) {
        Ok(d) => {
            check(focus != 5, "all of the meta headers are needed");
            check(vi < 5, "version is known");
            if focus == 0 {
                if !v.contains(&b'#') {
                    check(eq(d.url().to_string().as_bytes(), v), "url");
                }
            } else if focus == 1 {
                check(eq(d.method().as_str().as_bytes(), v), "method");
            } else if focus == 2 {
                let w = [http::Version::HTTP_09, http::Version::HTTP_10,
                         http::Version::HTTP_11, http::Version::HTTP_2,
                         http::Version::HTTP_3];
                check(d.res_version() == w[vi], "version");
            } else if focus == 3 {
                check(v.len() >= 3, "status digits");
                let n = (v[0] - b'0') as u16 * 100 + (v[1] - b'0') as u16 * 10
                    + (v[2] - b'0') as u16;
                check(d.res_status().as_u16() == n, "status");
                reach(3);
            } else if focus == 4 {
                check(d.res_decoded().len() == 1, "one encoding");
                check(eq(d.res_decoded()[0].to_string().as_bytes(), v),
                      "encoding");
                reach(4);
            } else if focus == 6 {
                check(d.res_decoded()[..] == *LISTS[list].1, "encodings");
                reach(5);
            }
            reach(1);
        }
        Err(_) => {
            check(!valid, "valid meta headers refused");
            reach(2);
        }
    }
}

/// What is not set is as documented: 4 KiB for gzip and 1 KiB for brotli, and
/// the decoded list is looked at.
#[no_mangle]
pub extern "C" fn h_b08_defaults() {
    let gz = pick(2) == 0;
    let min = if gz { 4096 } else { 1024 };
    // bytes of the response body around the limit
    let head = "content-type: text/html\r\n".len();
    let n = min - head - 2 + pick(5) as usize;
    let dec = pick(2) == 1;
    let mut w = Want { h: [vec![], vec![], vec![]],
                       b: [vec![], vec![b'y'; n]] };
    w.h[2].push(("content-type", b"text/html".to_vec()));
    let mut r = rec(&w, 0);
    let mut have = head + n;
    if dec {
        r.meta.append(hname_meta_res_decoded(),
                      HeaderValue::from_static("identity"));
        have += hname_meta_res_decoded().as_str().len() + 12;
    }
    let set = pick(2) == 1;
    let yes = match (gz, set) {
        (true, false) => GzipCompressStrategy::default().is_compressible(&r),
        (false, false) =>
            BrotliCompressStrategy::default().is_compressible(&r),
        (true, true) => GzipCompressStrategy::default()
            .set_check_identity(false).is_compressible(&r),
        (false, true) => BrotliCompressStrategy::default()
            .set_check_identity(false).is_compressible(&r),
    };
    check(yes == ((set || dec) && have >= min), "as documented");
    if yes { reach(1); } else { reach(2); }
}

/// Records are compressed when, and only when, there is enough of
/// compressible content.
#[no_mangle]
pub extern "C" fn h_b08_strategy() {
    const CT: [(&[u8], bool); 36] = [
        (b"", false), (b"text/html", true), (b"Text/Plain; charset=utf-8", true),
        (b"application/json", true), (b"application/javascript", true),
        (b"image/svg", true), (b"font/ttf", true),
        (b"image/png", false), (b"application/octet-stream", false),
        (b"video/mp4", false), (b"font/woff", false), (b"junk", false),
        (b"TEXT/CSS", true), (b"text/x-unknown;a=b", true),
        (b"application/html", true), (b"application/xml", true),
        (b"application/atom+xml", true), (b"application/rss+xml", true),
        (b"application/xhtml+xml", true), (b"image/svg+xml", true),
        (b"application/x-font-opentype", true),
        (b"application/x-font-truetype", true),
        (b"application/x-font-ttf", true), (b"font/opentype", true),
        (b"font/otf", true), (b"font/woff2", false), (b"application/zip", false),
        (b"image/jpeg", false), (b"multipart/form-data", false),
        (b"audio/ogg", false), (b"\xff", false), (b"text/\xe9", false),
        (b" text/html ", true), (b"texts/html", false), (b"text", false),
        (b"image/svgz", false),
    ];
    const DEC: [(&[u8], bool); 7] = [
        (b"", false), (b"identity", true), (b"gzip", false),
        (b"gzip, identity", true), (b"ident", false),
        (b"chunked, gzip, identity", true), (b"identity, gzip", false),
    ];
    let sz = [0usize, 1, 7, 5000];
    let focus = pick(3);
    let few = |f: u8, n: u8| if focus == f { pick(n) } else { 1 + pick(2) * 6 };
    let cs = CT[few(0, 36) as usize];
    let cq = CT[few(1, 36) as usize];
    let de = DEC[if focus == 2 { pick(7) } else { pick(2) } as usize];
    let rs = sz[pick(4) as usize];
    let rq = sz[pick(3) as usize];
    let mut w = Want { h: [vec![], vec![], vec![]],
                       b: [vec![b'x'; rq], vec![b'y'; rs]] };
    if !cs.0.is_empty() { w.h[2].push(("content-type", cs.0.to_vec())); }
    if !cq.0.is_empty() { w.h[1].push(("content-type", cq.0.to_vec())); }
    // more lines in a block
    let more = pick(3) as usize;
    w.h[more].push(("x-more", b"1".to_vec()));
    let mut r = rec(&w, 0);
    if !de.0.is_empty() {
        r.meta.append(hname_meta_res_decoded(),
                      HeaderValue::from_bytes(de.0).expect("value"));
    }
    let min = any_u64();
    let check_id = pick(2) == 1;
    let gz = pick(2) == 1;
    let yes = if gz {
        GzipCompressStrategy::default().set_min_len(min)
            .set_check_identity(check_id).is_compressible(&r)
    } else {
        BrotliCompressStrategy::default().set_min_len(min)
            .set_check_identity(check_id).is_compressible(&r)
    };
    // reference
    let mut have = 0u64;
    let mut less = 0u64;
    if cs.1 && (!check_id || de.1) { have += rs as u64; }
    else { less += rs as u64 / 2; }
    if cq.1 { have += rq as u64; } else { less += rq as u64 / 2; }
    for h in [&r.meta, &r.req_headers, &r.res_headers].iter() {
        for (k, v) in h.iter() {
            have += (k.as_str().len() + v.as_bytes().len() + 4) as u64;
        }
    }
    let want = (have >= less) & (min <= have.wrapping_sub(less));
    check(yes == want, "compressible");
    if yes { reach(1); } else { reach(2); }
    if focus < 2 { return; }
    // what is used is as was decided
    let bf = BarcFile::new(path("x.barc"));
    let s: Box<dyn CompressStrategy> = if gz {
        Box::new(GzipCompressStrategy::default().set_min_len(min)
            .set_check_identity(check_id).set_compression_level(1))
    } else {
        Box::new(BrotliCompressStrategy::default().set_min_len(min)
            .set_check_identity(check_id).set_compression_level(1))
    };
    write(&bf, &r, &*s).expect("write");
    let f = get_file("x.barc");
    check((f[20] != b'P') == yes, "compressed as decided");
    check(f.len() < 5000 || !yes, "compressed");
}

/// Records read from an archive, their clones, the reader and the archive
/// are dropped in any order, also after failures.
#[no_mangle]
pub extern "C" fn h_c07_archive() {
    std::fs::create_dir(path("t")).expect("create_dir");
    let kind = pick(3);
    let n = [3usize, 300][pick(2) as usize];
    let w = Want {
        h: [vec![], vec![text()], vec![text()]],
        b: [pattern(n, 0), pattern(n, 1)],
    };
    let bf = BarcFile::new(path("x.barc"));
    for _ in 0..2 {
        write(&bf, &rec(&w, 0), &*level(kind, 1)).expect("write");
    }
    drop(bf);
    env::creating_in(path("t"));
    let before = env::held();
    let t = Tuner::new().set_max_body_ram([0, 1 << 16][pick(2) as usize])
        .set_max_body(1 << 20).set_buffer_size_fs(100)
        .set_temp_dir(path("t")).finish();
    let ops = [env::Op::Read, env::Op::Write, env::Op::Open, env::Op::Seek,
               env::Op::Map];
    let f = pick(6) as usize;
    if f > 0 {
        env::arm(&[env::Fault { op: ops[f - 1] as u8, nth: pick(4),
                                what: env::FAIL }]);
    }
    let bf = BarcFile::new(path("x.barc"));
    let mut recs: Vec<Record> = Vec::with_capacity(4);
    let mut rd = bf.reader().ok();
    if let Some(rd) = &mut rd {
        for _ in 0..2 {
            match rd.read(&t) {
                Ok(Some(r)) => recs.push(r),
                _ => break,
            }
        }
    }
    if recs.is_empty() { reach(3); }
    else {
        if !recs[0].res_body.is_ram() { reach(1); }
        match pick(4) {
            0 => {}
            1 => {
                let c = recs[0].clone();
                recs.push(c);
            }
            2 => {
                if recs[0].res_body.mem_map().is_ok() { reach(2); }
                let c = recs[0].clone();
                recs.push(c);
            }
            _ => { recs[0].req_body.mem_map().ok(); }
        }
    }
    match pick(4) {
        0 => { drop(bf); drop(rd); drop(recs); }
        1 => { drop(recs); drop(rd); drop(bf); }
        2 => { drop(rd); recs.reverse(); drop(recs); drop(bf); }
        _ => { drop(bf); recs.reverse(); drop(recs); drop(rd); }
    }
    env::disarm();
    check(env::held().0 == before.0, "all descriptors closed");
    check(env::held().1 == before.1, "all maps removed");
    check(names("t") == 0, "no file is left");
    check(env::created_outside() == 0, "files only where configured");
}

harnesses!(h_b01_plain, h_b01_names, h_b01_many, h_b01_huge, h_b03_far, h_b03_again, h_b02_gzip, h_b02_brotli,
           h_b02_byte, h_b03_history, h_b04_step, h_b05_lengths, h_b05_byte,
           h_b05_decoded,
           h_b05_cut, h_b06_faults, h_b06_read_faults, h_b06_slow_read, h_b02_small, h_b08_defaults, h_b07_dialog,
           h_b07_any, h_b08_strategy, h_c07_archive);
