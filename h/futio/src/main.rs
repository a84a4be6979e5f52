mod world;

use body_image::*;
use body_image_futio::*;
use bytes::{Buf, Bytes};
use futures_core::stream::Stream;
use futures_sink::Sink;
use olio::fs::rc::ReadSlice;
use std::cell::RefCell;
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use sxrt::env::{self, Fault, Op};
use sxrt::*;
use world::*;

fn read_body(b: &BodyImage) -> Vec<u8> {
    let mut v = Vec::with_capacity(32);
    b.write_to(&mut v).expect("write_to");
    v
}

fn tune(kind: Kind, w: &World, img: Tunables, item: usize) -> FutioTunables {
    let mut t = FutioTuner::new();
    t.set_image(img).set_stream_item_size(item);
    match kind {
        Kind::Direct => {}
        Kind::Permit => {
            t.set_blocking_policy(BlockingPolicy::Permit(w.sem));
        }
        Kind::Dispatch => {
            t.set_blocking_policy(BlockingPolicy::Dispatch);
        }
    }
    t.finish()
}

// ---- sinks ----

/// Any setting of a size, up to a few more than items have.
fn size() -> usize {
    let n = any_u64();
    assume(n > 0 && n <= 8);
    n as usize
}

fn sink_start() -> BodySink {
    match pick(2) {
        0 => BodySink::with_ram(4),
        _ => BodySink::with_fs(dir()).expect("with_fs"),
    }
}

fn sink_run<B, S>(kind: Kind, items: u8, max: u8)
    where B: InputBuf + From<Bytes>,
          S: SinkWrapper<B> + Sink<B, Error = FutioError> + Unpin
{
    let mut w = World::new(kind);
    let (ram, lim) = (any_u64(), any_u64());
    assume(ram <= lim);
    let t = Tuner::new().set_max_body_ram(ram).set_max_body(lim)
        .set_buffer_size_ram(size()).set_buffer_size_fs(size())
        .set_temp_dir(dir()).finish();
    let t = tune(kind, &w, t, size());
    let start = sink_start();
    let fs = !start.is_ram();
    let mut s = S::new(start, t);
    let mut want: Vec<u8> = Vec::with_capacity(16);
    let mut over = None;
    for _ in 0..items {
        let r = w.drive(&mut |cx: &mut Context<'_>| {
            Pin::new(&mut s).poll_ready(cx)
        });
        if !ready(r, &mut over) { return; }
        let n = pick(max + 1) as usize;
        let data = any_bytes::<3>();
        let data = &data[..n];
        Pin::new(&mut s).start_send(Bytes::copy_from_slice(data).into())
            .expect("start_send");
        want.extend_from_slice(data);
        if n > 0 && want.len() as u64 > lim {
            over = Some(want.len() as u64);
        }
    }
    let close = pick(3);
    for i in 0..2 {
        let r = w.drive(&mut |cx: &mut Context<'_>| match (close, i) {
            (0, _) => Pin::new(&mut s).poll_flush(cx),
            (1, _) => Pin::new(&mut s).poll_close(cx),
            (_, 0) => Pin::new(&mut s).poll_ready(cx),
            (_, _) => Pin::new(&mut s).poll_flush(cx),
        });
        if !ready(r, &mut over) { return; }
    }
    let body = s.into_inner();
    chk(CONTENT, body.len() == want.len() as u64, "sink length");
    chk(LIMITS, body.is_ram() == (!fs && want.len() as u64 <= ram),
        "in memory exactly when within the memory limit");
    if body.is_ram() { reach(1); } else { reach(2); }
    let img = body.prepare().expect("prepare");
    let got = read_body(&img);
    chk(CONTENT, got.len() == want.len(), "content length");
    chk(CONTENT, eq(&got, &want), "content");
    out(got.len() as u64);
    out_bytes(&got);
}

/// Result of a ready poll: whether to carry on.
fn ready(r: Result<(), FutioError>, over: &mut Option<u64>) -> bool {
    match r {
        Ok(()) => {
            chk(LIMITS, over.is_none(), "too long a body is accepted");
            true
        }
        Err(FutioError::Body(BodyError::BodyTooLong(n))) => {
            chk(LIMITS, *over == Some(n), "rejected within the limit");
            out(n);
            reach(3);
            false
        }
        Err(_) => {
            chk(CONTENT, false, "sink failed");
            false
        }
    }
}

#[no_mangle]
pub extern "C" fn h_f01_direct() {
    let (n, m) = (param(0, 2) as u8, param(1, 2) as u8);
    if pick(2) == 0 {
        sink_run::<Bytes, AsyncBodySink<Bytes>>(Kind::Direct, n, m)
    } else {
        sink_run::<UniBodyBuf, AsyncBodySink<UniBodyBuf>>(Kind::Direct, n, m)
    }
}

#[no_mangle]
pub extern "C" fn h_f01_permit() {
    let (n, m) = (param(0, 2) as u8, param(1, 2) as u8);
    if pick(2) == 0 {
        sink_run::<Bytes, PermitBodySink<Bytes>>(Kind::Permit, n, m)
    } else {
        sink_run::<UniBodyBuf, PermitBodySink<UniBodyBuf>>(Kind::Permit, n, m)
    }
}

#[no_mangle]
pub extern "C" fn h_f01_dispatch() {
    let (n, m) = (param(0, 2) as u8, param(1, 2) as u8);
    if pick(2) == 0 {
        sink_run::<Bytes, DispatchBodySink<Bytes>>(Kind::Dispatch, n, m)
    } else {
        sink_run::<UniBodyBuf, DispatchBodySink<UniBodyBuf>>(
            Kind::Dispatch, n, m)
    }
}

// ---- streams ----

/// An image of n bytes in a symbolic form: in memory in some division, in a
/// file (whole or a part of it), or mapped from either.
fn image(data: &[u8]) -> BodyImage {
    match pick(3) {
        0 => {
            let mut s = BodySink::with_ram_buffers(2);
            let mut at = 0;
            while at < data.len() {
                let k = 1 + pick((data.len() - at) as u8) as usize;
                s.push(Bytes::copy_from_slice(&data[at..at + k]))
                    .expect("push");
                at += k;
            }
            s.prepare().expect("prepare")
        }
        1 => {
            let mut s = BodySink::with_fs(dir()).expect("with_fs");
            s.write_all(data).expect("write");
            let mut b = s.prepare().expect("prepare");
            if !data.is_empty() && pick(2) == 1 {
                b.mem_map().expect("mem_map");
            }
            b
        }
        _ => {
            // part of a file, with other data on both sides
            let mut v = vec![b'<'; 3];
            v.extend_from_slice(data);
            v.extend_from_slice(b">>");
            put_file("part", &v);
            let f = std::fs::File::open(path("part")).expect("open");
            let mut rs = ReadSlice::new(Arc::new(f), 3, 3 + data.len() as u64);
            if !data.is_empty() && pick(2) == 1 {
                // already used by another reader
                io::Read::read(&mut rs, &mut [0u8; 1]).expect("read");
            }
            let mut b = unsafe { BodyImage::from_read_slice(rs) };
            if !data.is_empty() && pick(2) == 1 {
                b.mem_map().expect("mem_map");
            }
            b
        }
    }
}

/// What a stream type adds to the plain one.
#[derive(Clone, Copy, PartialEq)]
enum Add { Nothing, Yield, Split }

type Hint<S> = fn(&S) -> (u64, Option<u64>, bool);
type Next<S, B> = fn(Pin<&mut S>, &mut Context<'_>, u8)
    -> Poll<Option<Result<B, io::Error>>>;

fn hint<S: http_body::Body>(s: &S) -> (u64, Option<u64>, bool) {
    let h = s.size_hint();
    (h.lower(), h.upper(), s.is_end_stream())
}

fn next_plain<S, B>(s: Pin<&mut S>, cx: &mut Context<'_>, _: u8)
    -> Poll<Option<Result<B, io::Error>>>
    where S: Stream<Item = Result<B, io::Error>>
{
    s.poll_next(cx)
}

fn next_any<S, B>(s: Pin<&mut S>, cx: &mut Context<'_>, way: u8)
    -> Poll<Option<Result<B, io::Error>>>
    where S: Stream<Item = Result<B, io::Error>>
             + http_body::Body<Data = B, Error = io::Error>, B: Buf
{
    if way == 0 { s.poll_next(cx) } else { s.poll_data(cx) }
}

fn stream_run<B, S>(kind: Kind, add: Add, next: Next<S, B>,
                    hint: Option<Hint<S>>, max: u8)
    where B: OutputBuf + AsRef<[u8]> + Into<Bytes>,
          S: StreamWrapper + Stream<Item = Result<B, io::Error>> + Unpin
{
    let mut w = World::new(kind);
    let n = pick(max + 1) as usize;
    let data = any_bytes::<8>();
    let want = &data[..n];
    let body = image(want);
    let ram = body.is_ram();
    let map = body.is_mem_map();
    let bufsz = 1 + pick(3) as usize;
    let item = if add == Add::Split { 1 + pick(3) as usize } else { 64 };
    let t = Tuner::new().set_buffer_size_fs(bufsz).set_temp_dir(dir())
        .finish();
    let mut s = S::new(body, tune(kind, &w, t, item));
    let way = if hint.is_some() { pick(2) } else { 0 };
    let mut got: Vec<u8> = Vec::with_capacity(16);
    let mut items = 0;
    let mut after = false;
    loop {
        if let Some(h) = hint {
            let (lo, hi, end) = h(&s);
            let left = (n - got.len()) as u64;
            chk(HINTS, lo == left && hi == Some(left),
                "size hint is what remains");
            chk(HINTS, end == (left == 0), "end of stream as reported");
            out(lo);
        }
        let mut yielded = false;
        let r = w.drive(&mut |cx: &mut Context<'_>| {
            let r = next(Pin::new(&mut s), cx, way);
            if r.is_pending() {
                yielded = true;
                if let Some(h) = hint {
                    let (lo, hi, end) = h(&s);
                    let left = (n - got.len()) as u64;
                    chk(HINTS, lo == left && hi == Some(left),
                        "size hint while waiting");
                    chk(HINTS, !end || left == 0,
                        "end of stream while waiting");
                }
                if ram && add == Add::Nothing {
                    chk(BLOCKING, false, "in memory body waits");
                }
            } else if let Poll::Ready(Some(_)) = r {
                chk(BLOCKING, ram || !is_held_now(),
                    "file data delivered without a permit");
            }
            r
        });
        if add != Add::Nothing && after {
            chk(WAKING, yielded, "yields after each item");
        }
        match r {
            None => break,
            Some(Ok(b)) => {
                items += 1;
                after = true;
                chk(CONTENT, b.remaining() == b.as_ref().len(), "item length");
                if add == Add::Split {
                    chk(CONTENT, b.remaining() <= item, "item size");
                }
                if !ram && !map {
                    chk(CONTENT, b.remaining() <= bufsz, "read size");
                }
                if pick(2) == 0 { got.extend_from_slice(b.as_ref()); }
                else {
                    let b: Bytes = b.into();
                    got.extend_from_slice(&b);
                }
                chk(CONTENT, got.len() <= n, "more than the body");
                if got.len() > n { return; }
            }
            Some(Err(_)) => chk(CONTENT, false, "stream failed"),
        }
        if kind == Kind::Dispatch && !ram {
            chk(BLOCKING, w.ran >= items, "read outside of the pool");
        }
    }
    chk(CONTENT, got.len() == n, "stream length");
    chk(CONTENT, eq(&got, want), "stream content");
    let r = w.drive(&mut |cx: &mut Context<'_>| {
        next(Pin::new(&mut s), cx, way)
    });
    chk(CONTENT, r.is_none(), "item after the end");
    if ram { reach(1); } else if map { reach(2); } else { reach(3); }
    out_bytes(&got);
    out(items as u64);
}

#[no_mangle]
pub extern "C" fn h_f03_direct() {
    let m = param(0, 4) as u8;
    if pick(2) == 0 {
        stream_run::<Bytes, AsyncBodyImage<Bytes>>(
            Kind::Direct, Add::Nothing, next_any, Some(hint), m)
    } else {
        stream_run::<UniBodyBuf, AsyncBodyImage<UniBodyBuf>>(
            Kind::Direct, Add::Nothing, next_any, Some(hint), m)
    }
}

#[no_mangle]
pub extern "C" fn h_f03_permit() {
    let m = param(0, 4) as u8;
    if pick(2) == 0 {
        stream_run::<Bytes, PermitBodyImage<Bytes>>(
            Kind::Permit, Add::Nothing, next_any, Some(hint), m)
    } else {
        stream_run::<UniBodyBuf, PermitBodyImage<UniBodyBuf>>(
            Kind::Permit, Add::Nothing, next_any, Some(hint), m)
    }
}

#[no_mangle]
pub extern "C" fn h_f03_dispatch() {
    let m = param(0, 4) as u8;
    if pick(2) == 0 {
        stream_run::<Bytes, DispatchBodyImage<Bytes>>(
            Kind::Dispatch, Add::Nothing, next_any, Some(hint), m)
    } else {
        stream_run::<UniBodyBuf, DispatchBodyImage<UniBodyBuf>>(
            Kind::Dispatch, Add::Nothing, next_any, Some(hint), m)
    }
}

#[no_mangle]
pub extern "C" fn h_f03_yield() {
    let m = param(0, 4) as u8;
    match pick(4) {
        0 => stream_run::<Bytes, YieldBodyImage<Bytes>>(
            Kind::Direct, Add::Yield, next_plain, None, m),
        1 => stream_run::<UniBodyBuf, YieldBodyImage<UniBodyBuf>>(
            Kind::Direct, Add::Yield, next_plain, None, m),
        2 => stream_run::<Bytes, SplitBodyImage<Bytes>>(
            Kind::Direct, Add::Split, next_plain, None, m),
        _ => stream_run::<UniBodyBuf, SplitBodyImage<UniBodyBuf>>(
            Kind::Direct, Add::Split, next_plain, None, m),
    }
}

/// The beginning of a body of any length, in a file that ends after a few
/// bytes of it.
fn long_run<B, S>(kind: Kind, next: Next<S, B>, hint: Hint<S>)
    where B: OutputBuf + AsRef<[u8]>,
          S: StreamWrapper + Stream<Item = Result<B, io::Error>> + Unpin
{
    let mut w = World::new(kind);
    w.holds = 1;
    let data = any_bytes::<4>();
    put_file("src", &data);
    let f = std::fs::File::open(path("src")).expect("open");
    let len = any_u64();
    assume(len >= 4 && len < 1 << 62);
    let b = unsafe { BodyImage::from_file(f, len) };
    let t = Tuner::new().set_buffer_size_fs(1 + pick(5) as usize)
        .set_buffer_size_ram(size()).set_temp_dir(dir()).finish();
    let mut s = S::new(b, tune(kind, &w, t, size()));
    let way = pick(2);
    let mut got: Vec<u8> = Vec::with_capacity(16);
    let mut failed = false;
    for _ in 0..6 {
        let (lo, hi, end) = hint(&s);
        if !failed {
            let left = len - got.len() as u64;
            chk(HINTS, lo == left && hi == Some(left),
                "size hint is what remains");
            chk(HINTS, end == (left == 0), "end of stream as reported");
        }
        let r = w.drive(&mut |cx: &mut Context<'_>| {
            let r = next(Pin::new(&mut s), cx, way);
            if r.is_pending() {
                let (lo, hi, end) = hint(&s);
                let left = len - got.len() as u64;
                chk(HINTS, lo == left && hi == Some(left),
                    "size hint while waiting");
                chk(HINTS, !end || left == 0, "end of stream while waiting");
            }
            r
        });
        match r {
            None => {
                chk(ERRORS, failed || got.len() as u64 == len,
                    "ends early without an error");
                break;
            }
            Some(Ok(b)) => {
                chk(ERRORS, !failed, "item after an error");
                got.extend_from_slice(b.as_ref());
                chk(CONTENT, got.len() <= 4, "more than the file has");
                if got.len() > 4 { return; }
            }
            Some(Err(_)) => {
                chk(ERRORS, !failed, "error repeated");
                chk(ERRORS, got.len() == 4 && len > 4, "fails without a cause");
                failed = true;
                reach(2);
            }
        }
    }
    chk(CONTENT, eq(&got, &data[..got.len()]), "stream content");
    if !failed {
        chk(CONTENT, got.len() == 4 && len == 4, "stream length");
        reach(1);
    }
    out_bytes(&got);
    out(failed as u64);
}

#[no_mangle]
pub extern "C" fn h_f03_long() {
    match pick(4) {
        0 => long_run::<Bytes, AsyncBodyImage<Bytes>>(
            Kind::Direct, next_any, hint),
        1 => long_run::<UniBodyBuf, AsyncBodyImage<UniBodyBuf>>(
            Kind::Direct, next_any, hint),
        2 => long_run::<Bytes, PermitBodyImage<Bytes>>(
            Kind::Permit, next_any, hint),
        _ => long_run::<Bytes, DispatchBodyImage<Bytes>>(
            Kind::Dispatch, next_any, hint),
    }
}

/// The beginning of a body of any length, far beyond 32 bits, that is all
/// there.
fn far_run<B, S>(kind: Kind, next: Next<S, B>, hint: Hint<S>)
    where B: OutputBuf + AsRef<[u8]>,
          S: StreamWrapper + Stream<Item = Result<B, io::Error>> + Unpin
{
    const TOP: u64 = 1 << 34;
    let mut w = World::new(kind);
    w.holds = 1;
    let data = any_bytes::<4>();
    put_sparse("src", &data, TOP, b"");
    let f = std::fs::File::open(path("src")).expect("open");
    let len = any_u64();
    assume(len >= 4 && len <= TOP);
    let at = pick(2) as u64 * 2;
    let b = unsafe { BodyImage::from_read_slice(
        ReadSlice::new(Arc::new(f), at, at + len)) };
    let bufsz = 1 + pick(5) as usize;
    let t = Tuner::new().set_buffer_size_fs(bufsz)
        .set_temp_dir(dir()).finish();
    let mut s = S::new(b, tune(kind, &w, t, size()));
    let way = pick(2);
    let mut got: Vec<u8> = Vec::with_capacity(16);
    for _ in 0..2 {
        let left = len - got.len() as u64;
        let (lo, hi, end) = hint(&s);
        chk(HINTS, lo == left && hi == Some(left),
            "size hint is what remains");
        chk(HINTS, end == (left == 0), "end of stream as reported");
        let r = w.drive(&mut |cx: &mut Context<'_>| {
            next(Pin::new(&mut s), cx, way)
        });
        match r {
            None => {
                chk(CONTENT, left == 0, "ends early");
                return;
            }
            Some(Ok(b)) => {
                let n = b.as_ref().len();
                chk(CONTENT, n > 0, "empty item");
                chk(CONTENT, n <= bufsz && n as u64 <= left, "item size");
                got.extend_from_slice(b.as_ref());
            }
            Some(Err(_)) => chk(CONTENT, false, "stream failed"),
        }
    }
    let mut want = [0u8; 16];
    want[..4 - at as usize].copy_from_slice(&data[at as usize..]);
    chk(CONTENT, eq(&got, &want[..got.len()]), "stream content");
    reach(1);
    out_bytes(&got);
}

#[no_mangle]
pub extern "C" fn h_f03_far() {
    match pick(4) {
        0 => far_run::<Bytes, AsyncBodyImage<Bytes>>(
            Kind::Direct, next_any, hint),
        1 => far_run::<UniBodyBuf, AsyncBodyImage<UniBodyBuf>>(
            Kind::Direct, next_any, hint),
        2 => far_run::<UniBodyBuf, PermitBodyImage<UniBodyBuf>>(
            Kind::Permit, next_any, hint),
        _ => far_run::<Bytes, DispatchBodyImage<Bytes>>(
            Kind::Dispatch, next_any, hint),
    }
}

/// Streams of bodies with sizes around the defaults of buffers.
fn large_run<B, S>(kind: Kind, next: Next<S, B>, hint: Hint<S>)
    where B: OutputBuf + AsRef<[u8]>,
          S: StreamWrapper + Stream<Item = Result<B, io::Error>> + Unpin
{
    const SIZES: [usize; 5] = [4097, 8193, 65536, 65537, 200_000];
    let mut w = World::new(kind);
    w.holds = 0;
    w.extra = 0;
    w.most = 200;
    let n = SIZES[pick(5) as usize];
    let mut want = vec![b'z'; n];
    for i in [0, 4095, n / 2, n - 1].iter() { want[*i] = any_u8(); }
    let mut s = match pick(2) {
        0 => BodySink::with_ram(n as u64),
        _ => BodySink::with_fs(dir()).expect("with_fs"),
    };
    let cut = [0, 1, 4096, n][pick(4) as usize];
    s.write_all(&want[..cut]).expect("write");
    s.write_all(&want[cut..]).expect("write");
    let mut body = s.prepare().expect("prepare");
    if !body.is_ram() && pick(2) == 1 { body.mem_map().expect("mem_map"); }
    let mut t = Tuner::new();
    t.set_temp_dir(dir());
    if pick(2) == 1 { t.set_buffer_size_fs(100_000); }
    let mut s = S::new(body, tune(kind, &w, t.finish(), 8192));
    let way = pick(2);
    let mut got: Vec<u8> = Vec::with_capacity(n);
    loop {
        let (lo, hi, end) = hint(&s);
        let left = (n - got.len()) as u64;
        chk(HINTS, lo == left && hi == Some(left),
            "size hint is what remains");
        chk(HINTS, end == (left == 0), "end of stream as reported");
        match w.drive(&mut |cx: &mut Context<'_>| {
            next(Pin::new(&mut s), cx, way)
        }) {
            None => break,
            Some(Ok(b)) => {
                got.extend_from_slice(b.as_ref());
                chk(CONTENT, got.len() <= n, "more than the body");
                if got.len() > n { return; }
            }
            Some(Err(_)) => chk(CONTENT, false, "stream failed"),
        }
    }
    chk(CONTENT, got.len() == n, "stream length");
    chk(CONTENT, eq(&got, &want), "stream content");
    reach(1);
    out(got.len() as u64);
}

#[no_mangle]
pub extern "C" fn h_f03_large() {
    match pick(3) {
        0 => large_run::<UniBodyBuf, AsyncBodyImage<UniBodyBuf>>(
            Kind::Direct, next_any, hint),
        1 => large_run::<UniBodyBuf, PermitBodyImage<UniBodyBuf>>(
            Kind::Permit, next_any, hint),
        _ => large_run::<Bytes, DispatchBodyImage<Bytes>>(
            Kind::Dispatch, next_any, hint),
    }
}

/// Sizes around the defaults of buffers and items, from a stream to a sink.
fn sizes_run<B, S, K>(kind: Kind)
    where B: OutputBuf + InputBuf,
          S: StreamWrapper + Stream<Item = Result<B, io::Error>> + Unpin,
          K: SinkWrapper<B> + Sink<B, Error = FutioError> + Unpin
{
    use futures_util::{StreamExt, TryStreamExt};
    const SIZES: [usize; 6] = [8191, 8193, 65536, 65537, 196608, 200000];
    let mut w = World::new(kind);
    w.holds = 0;
    w.extra = 0;
    let n = SIZES[pick(param(0, 6) as u8) as usize];
    let mut want = vec![b'z'; n];
    for i in [0, 4095, 8190, n / 2, n - 1].iter() { want[*i] = any_u8(); }
    let mut s = match pick(3) {
        0 => BodySink::with_ram(n as u64),
        _ => BodySink::with_fs(dir()).expect("with_fs"),
    };
    s.write_all(&want).expect("write");
    let mut body = s.prepare().expect("prepare");
    if pick(2) == 1 { body.mem_map().expect("mem_map"); }
    let mut t = Tuner::new();
    t.set_temp_dir(dir());
    if pick(2) == 1 { t.set_max_body_ram(8192); }
    let ram = t.finish().max_body_ram();
    let t = tune(kind, &w, t.finish(), [512 * 1024, 8192][pick(2) as usize]);
    let s = S::new(body, t.clone());
    let mut k = K::new(BodySink::with_ram(4), t);
    w.most = 200;
    let r = {
        let mut f = s.err_into::<FutioError>().forward(&mut k);
        w.drive(&mut |cx: &mut Context<'_>| {
            std::future::Future::poll(Pin::new(&mut f), cx)
        })
    };
    chk(CONTENT, r.is_ok(), "forward failed");
    let b = k.into_inner();
    chk(CONTENT, b.len() == n as u64, "length");
    chk(LIMITS, b.is_ram() == (n as u64 <= ram),
        "in memory exactly when within the memory limit");
    let got = read_body(&b.prepare().expect("prepare"));
    chk(CONTENT, got.len() == n, "content length");
    chk(CONTENT, eq(&got, &want), "content");
    reach(1);
    out(got.len() as u64);
}

#[no_mangle]
pub extern "C" fn h_f07_sizes() {
    match pick(5) {
        0 => sizes_run::<Bytes, AsyncBodyImage<Bytes>,
                         AsyncBodySink<Bytes>>(Kind::Direct),
        1 => sizes_run::<UniBodyBuf, SplitBodyImage<UniBodyBuf>,
                         AsyncBodySink<UniBodyBuf>>(Kind::Direct),
        2 => sizes_run::<UniBodyBuf, PermitBodyImage<UniBodyBuf>,
                         PermitBodySink<UniBodyBuf>>(Kind::Permit),
        3 => sizes_run::<Bytes, YieldBodyImage<Bytes>,
                         AsyncBodySink<Bytes>>(Kind::Direct),
        _ => sizes_run::<Bytes, DispatchBodyImage<Bytes>,
                         DispatchBodySink<Bytes>>(Kind::Dispatch),
    }
}

// ---- tasks competing for one permit ----

type Slot = RefCell<Option<PermitBodySink<Bytes>>>;
type Task<'a> = Box<dyn FnMut(&mut Context<'_>) -> Poll<()> + 'a>;

/// Feed items to a sink, then flush.
fn feeder<'a>(s: PermitBodySink<Bytes>, data: &'a [u8], to: &'a Slot)
    -> Task<'a>
{
    let mut at = 0;
    let mut own = Some(s);
    Box::new(move |cx| {
        loop {
            let s = own.as_mut().unwrap();
            match Pin::new(&mut *s).poll_ready(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(r) => if r.is_err() {
                    chk(CONTENT, false, "sink failed");
                    kill();
                },
            }
            if at == data.len() {
                to.replace(own.take());
                return Poll::Ready(());
            }
            Pin::new(&mut *s)
                .start_send(Bytes::copy_from_slice(&data[at..at + 1]))
                .expect("start_send");
            at += 1;
        }
    })
}

fn collector<'a>(mut s: PermitBodyImage<Bytes>, to: &'a RefCell<Vec<u8>>)
    -> Task<'a>
{
    Box::new(move |cx| {
        loop {
            match Pin::new(&mut s).poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(None) => return Poll::Ready(()),
                Poll::Ready(Some(Ok(b))) =>
                    to.borrow_mut().extend_from_slice(&b),
                Poll::Ready(Some(Err(_))) => {
                    chk(CONTENT, false, "stream failed");
                    kill();
                }
            }
        }
    })
}

/// Two tasks and one permit that others also use; the executor picks any
/// woken task, and one of the tasks may be dropped at any point.
#[no_mangle]
pub extern "C" fn h_f06_two() {
    let mut w = World::new(Kind::Permit);
    w.holds = param(1, 1) as u8;
    w.alone = false;
    let n = param(0, 2) as usize;
    let data = any_bytes::<4>();
    let other = any_bytes::<4>();
    let img = Tuner::new().set_max_body_ram(0).set_buffer_size_fs(1)
        .set_temp_dir(dir()).finish();
    let t = tune(Kind::Permit, &w, img, 2);
    let s = PermitBodySink::<Bytes>::new(BodySink::with_ram(4), t.clone());
    let sinks = pick(2) == 0;
    let (out0, out1) = (RefCell::new(None), RefCell::new(None));
    let got = RefCell::new(Vec::with_capacity(8));
    let mut dropped = [false; 2];
    {
        let a = feeder(s, &data[..n], &out0);
        let b = if sinks {
            let s = PermitBodySink::<Bytes>::new(BodySink::with_ram(4), t);
            feeder(s, &other[..n], &out1)
        } else {
            put_file("src", &other[..n]);
            let f = std::fs::File::open(path("src")).expect("open");
            let b = unsafe { BodyImage::from_file(f, n as u64) };
            collector(PermitBodyImage::<Bytes>::new(b, t), &got)
        };
        let mut tasks = [Some(a), Some(b)];
        let (f0, w0) = World::waker();
        let (f1, w1) = World::waker();
        let flags = [f0, f1];
        let wakers = [w0, w1];
        let mut seen = [0usize; 2];
        let mut due = [true; 2];
        let mut may_drop = 1;
        loop {
            for i in 0..2 {
                let k = flags[i].n.load(std::sync::atomic::Ordering::SeqCst);
                if k > seen[i] { due[i] = true; seen[i] = k; }
            }
            let live = [tasks[0].is_some(), tasks[1].is_some()];
            if !live[0] && !live[1] { break; }
            let can = [live[0] && due[0], live[1] && due[1]];
            if !can[0] && !can[1] {
                // nothing runs until the others give the permit back
                let r = w.release();
                chk(WAKING, r, "tasks wait for ever");
                if !r { return; }
                continue;
            }
            let i = if can[0] && can[1] { pick(2) as usize }
                    else if can[0] { 0 } else { 1 };
            w.maybe_hold();
            due[i] = false;
            let mut cx = Context::from_waker(&wakers[i]);
            let done = {
                let t = tasks[i].as_mut().unwrap();
                w.poll(&mut cx, &mut **t).is_ready()
            };
            if done { tasks[i] = None; }
            else if may_drop > 0 && tasks[1 - i].is_some() && pick(2) == 1 {
                // canceled: it must not keep the other from going on
                may_drop = 0;
                tasks[i] = None;
                dropped[i] = true;
                reach(2);
            }
        }
    }
    let take = |o: RefCell<Option<PermitBodySink<Bytes>>>| {
        let s = o.into_inner().expect("finished");
        read_body(&s.into_inner().prepare().expect("prepare"))
    };
    if !dropped[0] {
        let v = take(out0);
        chk(CONTENT, eq(&v, &data[..n]), "content of first");
        out_bytes(&v);
    }
    if !dropped[1] {
        let v = if sinks { take(out1) } else { got.into_inner() };
        chk(CONTENT, eq(&v, &other[..n]), "content of second");
        out_bytes(&v);
    }
    w.release();
    chk(BLOCKING, w.sem.available_permits() == 1, "a permit is lost");
    reach(1);
}

// ---- stream to sink ----

fn forward_run<B, S, K>(kind: Kind, max: u8)
    where B: OutputBuf + InputBuf,
          S: StreamWrapper + Stream<Item = Result<B, io::Error>> + Unpin,
          K: SinkWrapper<B> + Sink<B, Error = FutioError> + Unpin
{
    use futures_util::{StreamExt, TryStreamExt};
    let mut w = World::new(kind);
    w.holds = 1;
    let n = pick(max + 1) as usize;
    let data = any_bytes::<8>();
    let want = &data[..n];
    let body = image(want);
    let (ram, lim) = (any_u64(), any_u64());
    assume(ram <= lim);
    let t = Tuner::new().set_buffer_size_fs(1 + pick(2) as usize)
        .set_max_body_ram(ram).set_max_body(lim)
        .set_temp_dir(dir()).finish();
    let t = tune(kind, &w, t, 2);
    let s = S::new(body, t.clone());
    let mut k = K::new(BodySink::with_ram(4), t);
    let r = {
        let mut f = s.err_into::<FutioError>().forward(&mut k);
        w.drive(&mut |cx: &mut Context<'_>| {
            std::future::Future::poll(Pin::new(&mut f), cx)
        })
    };
    match r {
        Ok(()) => {
            chk(LIMITS, n as u64 <= lim || n == 0, "too long is accepted");
            let b = k.into_inner();
            chk(CONTENT, b.len() == n as u64, "length");
            chk(LIMITS, b.is_ram() == (n as u64 <= ram || n == 0),
                "in memory exactly when within the memory limit");
            let got = read_body(&b.prepare().expect("prepare"));
            chk(CONTENT, eq(&got, want), "content");
            out_bytes(&got);
            reach(1);
        }
        Err(FutioError::Body(BodyError::BodyTooLong(m))) => {
            chk(LIMITS, m > lim && m <= n as u64, "rejected within the limit");
            reach(2);
            out(m);
        }
        Err(_) => chk(CONTENT, false, "forward failed"),
    }
}

#[no_mangle]
pub extern "C" fn h_f07_forward() {
    let m = param(0, 3) as u8;
    match pick(7) {
        0 => forward_run::<Bytes, AsyncBodyImage<Bytes>,
                           AsyncBodySink<Bytes>>(Kind::Direct, m),
        1 => forward_run::<UniBodyBuf, AsyncBodyImage<UniBodyBuf>,
                           AsyncBodySink<UniBodyBuf>>(Kind::Direct, m),
        2 => forward_run::<UniBodyBuf, SplitBodyImage<UniBodyBuf>,
                           AsyncBodySink<UniBodyBuf>>(Kind::Direct, m),
        3 => forward_run::<Bytes, PermitBodyImage<Bytes>,
                           PermitBodySink<Bytes>>(Kind::Permit, m),
        4 => forward_run::<UniBodyBuf, PermitBodyImage<UniBodyBuf>,
                           PermitBodySink<UniBodyBuf>>(Kind::Permit, m),
        5 => forward_run::<Bytes, DispatchBodyImage<Bytes>,
                           DispatchBodySink<Bytes>>(Kind::Dispatch, m),
        _ => forward_run::<UniBodyBuf, DispatchBodyImage<UniBodyBuf>,
                           DispatchBodySink<UniBodyBuf>>(Kind::Dispatch, m),
    }
}

// ---- faults ----

fn sink_faults<S>(kind: Kind)
    where S: SinkWrapper<Bytes> + Sink<Bytes, Error = FutioError> + Unpin
{
    let mut w = World::new(kind);
    w.holds = 0;
    w.extra = 0;
    let ram = pick(4) as u64;
    let t = Tuner::new().set_max_body_ram(ram).set_temp_dir(dir()).finish();
    let t = tune(kind, &w, t, 2);
    let start = sink_start();
    let f = [Fault { op: pick(3) as u8, nth: pick(4), what: pick(4) },
             Fault { op: Op::Write as u8, nth: pick(4), what: pick(3) }];
    assume(f[0].op != f[1].op || f[0].nth != f[1].nth);
    let mut s = S::new(start, t);
    let data = any_bytes::<6>();
    let n = param(0, 3) as usize;
    env::arm(&f);
    let mut failed = false;
    for i in 0..n + 1 {
        let r = w.drive(&mut |cx: &mut Context<'_>| {
            if i < n { Pin::new(&mut s).poll_ready(cx) }
            else { Pin::new(&mut s).poll_close(cx) }
        });
        if r.is_err() { failed = true; break; }
        if i < n {
            Pin::new(&mut s)
                .start_send(Bytes::copy_from_slice(&data[i * 2..i * 2 + 2]))
                .expect("start_send");
        }
    }
    let hard = f.iter().any(|f| f.what == env::FAIL
                            && (f.nth as usize)
                               < env::count_of(f.op));
    if failed {
        chk(ERRORS, hard, "fails without a cause");
        reach(2);
    } else {
        chk(ERRORS, !hard, "a failed write is not reported");
        env::disarm();
        let got = read_body(&s.into_inner().prepare().expect("prepare"));
        chk(ERRORS, eq(&got, &data[..n * 2]), "content after faults");
        out_bytes(&got);
        reach(1);
    }
    out(failed as u64);
}

#[no_mangle]
pub extern "C" fn h_f08_sink_faults() {
    match pick(3) {
        0 => sink_faults::<AsyncBodySink<Bytes>>(Kind::Direct),
        1 => sink_faults::<PermitBodySink<Bytes>>(Kind::Permit),
        _ => sink_faults::<DispatchBodySink<Bytes>>(Kind::Dispatch),
    }
}

fn stream_faults<B, S>(kind: Kind)
    where B: OutputBuf + AsRef<[u8]>,
          S: StreamWrapper + Stream<Item = Result<B, io::Error>> + Unpin
{
    let mut w = World::new(kind);
    w.holds = 0;
    w.extra = 0;
    let n = param(0, 4) as usize;
    let data = any_bytes::<8>();
    // the file may have been cut
    let have = n - pick(3) as usize;
    put_file("src", &data[..have]);
    let f = std::fs::File::open(path("src")).expect("open");
    let b = unsafe { BodyImage::from_file(f, n as u64) };
    let t = Tuner::new().set_buffer_size_fs(1 + pick(3) as usize)
        .set_temp_dir(dir()).finish();
    let mut s = S::new(b, tune(kind, &w, t, 2));
    let f = [Fault { op: Op::Read as u8, nth: pick(5), what: pick(4) },
             Fault { op: Op::Read as u8, nth: pick(5), what: pick(3) }];
    assume(f[0].nth != f[1].nth);
    env::arm(&f);
    let mut got: Vec<u8> = Vec::with_capacity(16);
    let mut failed = false;
    loop {
        let r = w.drive(&mut |cx: &mut Context<'_>| {
            Pin::new(&mut s).poll_next(cx)
        });
        match r {
            None => break,
            Some(Ok(b)) => got.extend_from_slice(b.as_ref()),
            Some(Err(_)) => { failed = true; break; }
        }
    }
    let hard = f.iter().any(|f| f.what == env::FAIL
                            && (f.nth as usize) < env::count(Op::Read));
    chk(ERRORS, got.len() <= have, "no more than the file has");
    if got.len() > have { return; }
    chk(ERRORS, eq(&got, &data[..got.len()]), "delivered data");
    if failed {
        chk(ERRORS, hard || have < n, "fails without a cause");
        reach(2);
    } else {
        chk(ERRORS, !hard, "a failed read is not reported");
        chk(ERRORS, got.len() == n, "ends early without an error");
        reach(1);
    }
    out(failed as u64);
    out_bytes(&got);
}

#[no_mangle]
pub extern "C" fn h_f08_stream_faults() {
    match pick(5) {
        0 => stream_faults::<Bytes, AsyncBodyImage<Bytes>>(Kind::Direct),
        1 => stream_faults::<UniBodyBuf, SplitBodyImage<UniBodyBuf>>(
            Kind::Direct),
        2 => stream_faults::<Bytes, YieldBodyImage<Bytes>>(Kind::Direct),
        3 => stream_faults::<UniBodyBuf, PermitBodyImage<UniBodyBuf>>(
            Kind::Permit),
        _ => stream_faults::<Bytes, DispatchBodyImage<Bytes>>(Kind::Dispatch),
    }
}

// ---- buffers ----

static mut PAST: [u8; 4] = [0; 4];

/// What is beyond the end of a buffer cannot be had.
#[no_mangle]
pub extern "C" fn h_f09_past() {
    unsafe { PAST = [pick(3), pick(5), pick(6), pick(3)]; }
    let p = panics(|| {
        use blocking_permit::Splittable;
        let [form, a, b, way] = unsafe { PAST };
        let mut u = uni_as(form, b"abcd");
        u.advance(a as usize);
        match way {
            0 => u.advance(b as usize),
            1 => {
                let mut d = [0u8; 8];
                u.copy_to_slice(&mut d[..b as usize]);
            }
            _ => {
                // a part has an end of its own
                if let Some(mut p) = u.split_if(2) {
                    p.advance(b as usize);
                } else {
                    u.advance(b as usize);
                }
            }
        }
    });
    let [_, a, b, way] = unsafe { PAST };
    let left = if way == 2 && a < 2 { 2 } else { 4 - a };
    check(p == (b > left), "refused exactly when past the end");
    if p { reach(1); } else { reach(2); }
}

/// A buffer over the data, in memory or mapped.
fn uni(data: &[u8]) -> UniBodyBuf { uni_as(pick(3), data) }

fn uni_as(form: u8, data: &[u8]) -> UniBodyBuf {
    match form {
        0 => Bytes::copy_from_slice(data).into(),
        k => {
            put_file("src", data);
            let f = std::fs::File::open(path("src")).expect("open");
            let mut b = unsafe { BodyImage::from_file(f, data.len() as u64) };
            if k == 2 { b.mem_map().expect("mem_map"); }
            let t = Tuner::new().set_buffer_size_fs(16).finish();
            let mut t2 = FutioTuner::new();
            t2.set_image(t);
            let mut s = AsyncBodyImage::<UniBodyBuf>::new(b, t2.finish());
            let (_f, w) = World::waker();
            let mut cx = Context::from_waker(&w);
            match Pin::new(&mut s).poll_next(&mut cx) {
                Poll::Ready(Some(Ok(b))) => b,
                _ => { check(false, "no item"); kill() }
            }
        }
    }
}

fn same(b: &UniBodyBuf, want: &[u8]) {
    check(b.remaining() == want.len(), "remaining");
    check(b.has_remaining() == !want.is_empty(), "has remaining");
    check(eq(b.chunk(), want), "chunk");
    check(eq(b.as_ref(), want), "as_ref");
    check(eq(&b[..], want), "deref");
}

#[no_mangle]
pub extern "C" fn h_f09_buf() {
    use blocking_permit::Splittable;
    let data = any_bytes::<8>();
    let n = param(0, 5) as usize;
    let mut b = uni(&data[..n]);
    let (mut lo, hi) = (0, n);
    // pieces split off earlier keep their content
    let mut kept: Vec<(UniBodyBuf, usize, usize)> = Vec::with_capacity(4);
    for _ in 0..param(1, 3) {
        same(&b, &data[lo..hi]);
        match pick(4) {
            0 => {
                let k = pick((hi - lo) as u8 + 1) as usize;
                b.advance(k);
                lo += k;
            }
            1 => {
                let max = 1 + pick(6) as usize;
                match b.split_if(max) {
                    Some(p) => {
                        check(hi - lo > max, "split of a short buffer");
                        if hi - lo <= max { kill(); }
                        same(&p, &data[lo..lo + max]);
                        kept.push((p, lo, lo + max));
                        lo += max;
                        reach(2);
                    }
                    None => check(hi - lo <= max, "long buffer not split"),
                }
            }
            2 => {
                let mut d = [0u8; 8];
                let k = pick((hi - lo) as u8 + 1) as usize;
                b.copy_to_slice(&mut d[..k]);
                check(eq(&d[..k], &data[lo..lo + k]), "copied out");
                lo += k;
            }
            _ => {
                if !kept.is_empty() {
                    // the piece is independent of what follows
                    let l = kept.len() - 1;
                    let k = pick(3) as usize;
                    let (p, a, z) = &mut kept[l];
                    if *a + k <= *z { p.advance(k); *a += k; }
                }
            }
        }
    }
    same(&b, &data[lo..hi]);
    for (p, a, z) in kept.iter() { same(p, &data[*a..*z]); }
    let v: Bytes = b.into();
    check(eq(&v, &data[lo..hi]), "into bytes");
    for (p, a, z) in kept {
        let v: Bytes = p.into();
        check(eq(&v, &data[a..z]), "piece into bytes");
    }
    reach(1);
    out_bytes(&v);
}

// ---- encodings ----

const TOKENS: [(&str, Tok); 8] = [
    ("gzip", Tok::E(Encoding::Gzip)),
    ("chunked", Tok::Chunked),
    ("br", Tok::E(Encoding::Brotli)),
    ("identity", Tok::Plain),
    ("deflate", Tok::E(Encoding::Deflate)),
    ("foo", Tok::Unknown),
    ("x-gzip", Tok::E(Encoding::Gzip)),
    ("compress", Tok::E(Encoding::Compress)),
];

#[derive(Clone, Copy, PartialEq)]
enum Tok { E(Encoding), Chunked, Plain, Unknown }

/// Up to max tokens of a header, in one line or in several.
fn codings(map: &mut http::HeaderMap, name: http::header::HeaderName,
           max: u8, alphabet: u8) -> Vec<Tok> {
    let mut v = Vec::with_capacity(4);
    let mut line = Vec::with_capacity(32);
    for _ in 0..pick(max + 1) {
        let (s, t) = TOKENS[pick(alphabet) as usize];
        if !line.is_empty() {
            match pick(3) {
                0 => line.extend_from_slice(b", "),
                1 => line.push(b','),
                _ => {
                    map.append(name.clone(), value(&line));
                    line.clear();
                    line.push(b' ');
                }
            }
        }
        for c in s.bytes() {
            // letters of either case
            let up = c.is_ascii_lowercase() as u8 & any_u8();
            line.push(c - up * 32);
        }
        v.push(t);
    }
    if !line.is_empty() {
        map.append(name, value(&line));
    }
    v
}

fn value(b: &[u8]) -> http::header::HeaderValue {
    http::header::HeaderValue::from_bytes(b).expect("value")
}

/// Outermost coding first: those of the transfer were applied last.
fn expected(te: &[Tok], ce: &[Tok]) -> (bool, Option<Encoding>, bool) {
    let chunked = te.contains(&Tok::Chunked);
    let mut first = None;
    let mut plain = true;
    for t in te.iter().rev() {
        match *t {
            Tok::E(e) => if first.is_none() { first = Some(e) }
                         else { plain = false },
            Tok::Unknown => plain = false,
            _ => {}
        }
    }
    for t in ce.iter().rev() {
        match *t {
            Tok::E(e) => if first.is_none() { first = Some(e) }
                         else { plain = false },
            Tok::Unknown => plain = false,
            _ => {}
        }
    }
    (chunked, first, plain)
}

#[no_mangle]
pub extern "C" fn h_f10_find() {
    let mut map = http::HeaderMap::new();
    let (n, a) = (param(0, 2) as u8, param(1, 8) as u8);
    let te = codings(&mut map, http::header::TRANSFER_ENCODING, n, a);
    let ce = codings(&mut map, http::header::CONTENT_ENCODING, param(2, 1) as u8,
                     a);
    let (chunked, first, _) = expected(&te, &ce);
    check(find_chunked(&map) == chunked, "chunked transfer found");
    let l = find_encodings(&map);
    let mut want = Vec::with_capacity(2);
    if chunked { want.push(Encoding::Chunked); }
    if let Some(e) = first { want.push(e); }
    check(l == want, "encodings found");
    if chunked && first.is_some() { reach(1); }
    if !chunked && first.is_none() { reach(2); }
    out(l.len() as u64);
}

/// A name of letters, digits and hyphens, and for `opaque` also of bytes that
/// are never text, with what it stands for.
fn any_name(n: usize, opaque: bool) -> (Vec<u8>, Tok) {
    const KNOWN: [(&[u8], Tok); 7] = [
        (b"gzip", Tok::E(Encoding::Gzip)),
        (b"x-gzip", Tok::E(Encoding::Gzip)),
        (b"deflate", Tok::E(Encoding::Deflate)),
        (b"br", Tok::E(Encoding::Brotli)),
        (b"compress", Tok::E(Encoding::Compress)),
        (b"identity", Tok::Plain),
        (b"chunked", Tok::Chunked)];
    let b = any_bytes::<8>();
    let mut v = Vec::with_capacity(8);
    for c in &b[..n] {
        let l = *c | 32;
        assume(((l >= b'a') & (l <= b'z')) | ((*c >= b'0') & (*c <= b'9'))
               | (*c == b'-') | (opaque & (*c >= 0xf8)));
        v.push(*c);
    }
    for (k, t) in KNOWN.iter() {
        if k.len() == n {
            let mut same = true;
            for (c, k) in v.iter().zip(k.iter()) {
                same &= (*c == *k) | ((*c == *k - 32) & (*k != b'-'));
            }
            if same { return (v, *t); }
        }
    }
    (v, Tok::Unknown)
}

/// Of all names, only the known ones are found.
#[no_mangle]
pub extern "C" fn h_f10_name() {
    let mut map = http::HeaderMap::new();
    let (v, t) = any_name(1 + pick(8) as usize, false);
    let transfer = pick(2) == 0;
    map.insert(if transfer { http::header::TRANSFER_ENCODING }
               else { http::header::CONTENT_ENCODING }, value(&v));
    let l = find_encodings(&map);
    check(find_chunked(&map) == (transfer && t == Tok::Chunked),
          "chunked transfer found");
    match t {
        Tok::E(e) => {
            check(l.len() == 1 && l[0] == e, "encoding found");
            reach(1);
        }
        Tok::Chunked if transfer => {
            check(l.len() == 1 && l[0] == Encoding::Chunked, "chunked found");
            reach(2);
        }
        _ => {
            check(l.is_empty(), "other names are not encodings");
            reach(3);
        }
    }
    out(l.len() as u64);
}

fn gz(d: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::GzEncoder::new(
        Vec::with_capacity(64), flate2::Compression::fast());
    e.write_all(d).expect("gzip");
    e.finish().expect("gzip")
}

fn deflated(d: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::DeflateEncoder::new(
        Vec::with_capacity(64), flate2::Compression::fast());
    e.write_all(d).expect("deflate");
    e.finish().expect("deflate")
}

fn br(d: &[u8]) -> Vec<u8> {
    use std::io::Read;
    let mut v = Vec::with_capacity(64);
    let mut e = brotli::CompressorReader::new(d, 256, 1, 16);
    e.read_to_end(&mut v).expect("brotli");
    v
}

fn payload(k: u8) -> Vec<u8> {
    match k {
        0 => Vec::new(),
        1 => b"x".to_vec(),
        2 => b"hello, hello, hello world".to_vec(),
        _ => {
            let mut v = Vec::with_capacity(320);
            for i in 0..300u32 { v.push((i * i / 7) as u8); }
            v
        }
    }
}

/// In memory as one or two pieces, in a file, or mapped.
fn body_of(d: &[u8], form: u8) -> BodyImage {
    if form < 2 {
        let mut s = BodySink::with_ram_buffers(2);
        let k = if form == 0 { d.len() } else { d.len() / 2 };
        s.push(Bytes::copy_from_slice(&d[..k])).expect("push");
        s.push(Bytes::copy_from_slice(&d[k..])).expect("push");
        return s.prepare().expect("prepare");
    }
    put_file("enc", d);
    let f = std::fs::File::open(path("enc")).expect("open");
    let mut b = unsafe { BodyImage::from_file(f, d.len() as u64) };
    if form == 3 && !d.is_empty() { b.mem_map().expect("mem_map"); }
    b
}

fn dialog(map: http::HeaderMap, body: BodyImage) -> Dialog {
    Dialog::new(
        Prolog {
            method: http::Method::GET,
            url: "http://h/".parse().expect("url"),
            req_headers: http::HeaderMap::new(),
            req_body: BodyImage::empty(),
        },
        Epilog {
            version: http::Version::HTTP_11,
            status: http::StatusCode::OK,
            res_headers: map,
            res_body: body,
            res_decoded: Vec::new(),
        })
}

/// The codings as applied by a server, undone by decoding.
#[no_mangle]
pub extern "C" fn h_f11_decode() {
    let mut map = http::HeaderMap::new();
    let ce = match pick(11) {
        0 => None,
        1 => Some(("gzip", Tok::E(Encoding::Gzip))),
        2 => Some(("x-gzip", Tok::E(Encoding::Gzip))),
        3 => Some(("deflate", Tok::E(Encoding::Deflate))),
        4 => Some(("br", Tok::E(Encoding::Brotli))),
        5 => Some(("compress", Tok::E(Encoding::Compress))),
        6 => Some(("identity", Tok::Plain)),
        7 => Some(("foo", Tok::Unknown)),
        8 => Some(("Deflate", Tok::E(Encoding::Deflate))),
        9 => Some(("GZIP", Tok::E(Encoding::Gzip))),
        _ => Some(("BR", Tok::E(Encoding::Brotli))),
    };
    let plain = payload(pick(4));
    let mut enc = plain.clone();
    let mut outer = None;
    let mut fully = true;
    let chunked = pick(2) == 1;
    let mut te = String::with_capacity(16);
    if let Some((name, t)) = ce {
        // as a content coding, or as a transfer coding
        if pick(2) == 0 {
            map.insert(http::header::CONTENT_ENCODING,
                       name.parse().expect("value"));
        } else {
            te.push_str(name);
        }
        match t {
            Tok::E(e) => {
                outer = Some(e);
                enc = match e {
                    Encoding::Gzip => gz(&enc),
                    Encoding::Deflate => deflated(&enc),
                    Encoding::Brotli => br(&enc),
                    _ => enc,
                };
            }
            Tok::Unknown => fully = false,
            _ => {}
        }
    }
    if chunked {
        if !te.is_empty() { te.push_str(", "); }
        te.push_str("chunked");
    }
    if !te.is_empty() {
        map.insert(http::header::TRANSFER_ENCODING,
                   te.parse().expect("value"));
    }
    let body = body_of(&enc, pick(4));
    let mut d = dialog(map, body);
    let (ram, lim) = (any_u64(), any_u64());
    assume(ram <= lim);
    let tune = Tuner::new().set_max_body_ram(ram).set_max_body(lim)
        .set_buffer_size_ram([7, 64, 400][pick(3) as usize])
        .set_buffer_size_fs(32).set_temp_dir(dir()).finish();
    let mut want = Vec::with_capacity(3);
    if chunked { want.push(Encoding::Chunked); }
    match decode_res_body(&mut d, &tune) {
        Ok(did) => {
            check(outer != Some(Encoding::Compress), "unsupported passes");
            check(did == outer.is_some(), "decoded as reported");
            if let Some(e) = outer {
                check(plain.len() as u64 <= lim, "limit not applied");
                want.push(e);
                reach(1);
            } else {
                reach(2);
            }
            if fully { want.push(Encoding::Identity); }
            check(*d.res_decoded() == want, "decoded encodings listed");
            let got = read_body(d.res_body());
            check(d.res_body().len() == plain.len() as u64, "length");
            check(eq(&got, &plain), "content");
        }
        Err(e) => {
            match e {
                FutioError::UnsupportedEncoding(e) =>
                    check(e == Encoding::Compress && outer == Some(e),
                          "supported encoding refused"),
                FutioError::Body(BodyError::BodyTooLong(n)) => {
                    check(n > lim && plain.len() as u64 > lim,
                          "refused within the limit");
                    check(outer.is_some(), "refused when not encoded");
                    reach(3);
                }
                _ => check(false, "decoding failed"),
            }
            check(d.res_decoded().is_empty(), "list changed by failure");
            let got = read_body(d.res_body());
            check(eq(&got, &enc), "body changed by failure");
        }
    }
    out(d.res_body().len());
}

/// A body in an encoding that is not known is not said to be plain.
#[no_mangle]
pub extern "C" fn h_f11_unknown() {
    let mut map = http::HeaderMap::new();
    let (v, t) = any_name(1 + pick(8) as usize, true);
    if t != Tok::Unknown { kill() }
    map.insert(if pick(2) == 0 { http::header::TRANSFER_ENCODING }
               else { http::header::CONTENT_ENCODING }, value(&v));
    let mut d = dialog(map, body_of(b"enc", 0));
    let tune = Tuner::new().set_temp_dir(dir()).finish();
    match decode_res_body(&mut d, &tune) {
        Ok(did) => {
            check(!did, "decoded as reported");
            check(d.res_decoded().is_empty(), "decoded encodings listed");
            reach(1);
        }
        Err(_) => check(d.res_decoded().is_empty(), "list changed by failure"),
    }
    let got = read_body(d.res_body());
    check(got.len() == 3 && eq(&got, b"enc"), "content");
}

/// Two codings: the outermost is undone, and the result is not said to be
/// plain. Damaged bodies are errors and leave the dialog alone.
#[no_mangle]
pub extern "C" fn h_f11_layers() {
    let mut map = http::HeaderMap::new();
    let plain = payload(2);
    let (inner, outer) = (pick(3), pick(3));
    let names = ["gzip", "deflate", "br"];
    let encs = [Encoding::Gzip, Encoding::Deflate, Encoding::Brotli];
    let by = |k: u8, d: &[u8]| match k {
        0 => gz(d), 1 => deflated(d), _ => br(d) };
    let mid = by(inner, &plain);
    let enc = by(outer, &mid);
    let mut v = String::from(names[inner as usize]);
    match pick(3) {
        0 => {
            v.push_str(", ");
            v.push_str(names[outer as usize]);
        }
        1 => {
            map.insert(http::header::TRANSFER_ENCODING,
                       names[outer as usize].parse().expect("value"));
        }
        _ => {
            map.append(http::header::CONTENT_ENCODING,
                       v.parse().expect("value"));
            v = String::from(names[outer as usize]);
        }
    }
    map.append(http::header::CONTENT_ENCODING, v.parse().expect("value"));
    let mut d = dialog(map, body_of(&enc, pick(2)));
    let tune = Tuner::new().set_temp_dir(dir()).finish();
    match decode_res_body(&mut d, &tune) {
        Ok(did) => {
            let got = read_body(d.res_body());
            let l = d.res_decoded();
            check(did, "decoded as reported");
            if l.last() == Some(&Encoding::Identity) {
                check(eq(&got, &plain), "said to be plain");
            } else {
                check(l.len() == 1 && l[0] == encs[outer as usize],
                      "decoded encodings listed");
                check(eq(&got, &mid), "outer coding undone");
            }
            out_bytes(&got);
        }
        Err(_) => check(false, "decoding failed"),
    }
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_f11_damage() {
    let kind = pick(4);
    let plain = payload(if kind == 0 { param(0, 1) as u8 } else { 2 });
    let mut map = http::HeaderMap::new();
    let (name, mut enc) = match kind {
        0 | 1 => ("gzip", gz(&plain)),
        2 => ("deflate", deflated(&plain)),
        _ => ("br", br(&plain)),
    };
    map.insert(http::header::CONTENT_ENCODING, name.parse().expect("value"));
    if kind == 0 {
        // one byte of the data is changed
        let at = pick(enc.len() as u8) as usize;
        let m = any_u8();
        assume(m != 0);
        enc[at] ^= m;
    } else {
        // the end is missing
        let keep = pick(enc.len() as u8) as usize;
        enc.truncate(keep);
    }
    let mut d = dialog(map, body_of(&enc, 0));
    let tune = Tuner::new().set_temp_dir(dir())
        .set_buffer_size_ram(16).finish();
    let r = decode_res_body(&mut d, &tune);
    let got = read_body(d.res_body());
    match r {
        Ok(did) => {
            check(did, "decoded as reported");
            check(kind == 0, "incomplete body accepted");
            check(eq(&got, &plain), "damaged content accepted");
            reach(1);
        }
        Err(_) => {
            check(d.res_decoded().is_empty(), "list changed by failure");
            check(eq(&got, &enc), "body changed by failure");
            reach(2);
        }
    }
    out_bytes(&got);
}

/// A body read in pieces from a file, where one read fails or is interrupted.
#[no_mangle]
pub extern "C" fn h_f11_slow() {
    let plain = payload(3);
    let (name, enc) = match pick(3) {
        0 => ("gzip", gz(&plain)),
        1 => ("deflate", deflated(&plain)),
        _ => ("br", br(&plain)),
    };
    let mut map = http::HeaderMap::new();
    map.insert(http::header::CONTENT_ENCODING, name.parse().expect("value"));
    let mut d = dialog(map, body_of(&enc, 2));
    let ram = any_u64();
    let tune = Tuner::new().set_temp_dir(dir())
        .set_max_body(u64::MAX).set_max_body_ram(ram)
        .set_buffer_size_ram(48).set_buffer_size_fs(64).finish();
    let nth = pick(param(0, 12) as u8);
    let what = [env::FAIL, env::INTR][pick(2) as usize];
    let mut v = Vec::with_capacity(24);
    for k in 0..24 {
        v.push(Fault { op: Op::Read as u8, nth: k,
                       what: if k == nth { what } else { env::SHORT + 39 } });
    }
    env::arm(&v);
    let r = decode_res_body(&mut d, &tune);
    let hit = env::count(Op::Read) > nth as usize;
    env::disarm();
    if !hit { kill() }
    let got = read_body(d.res_body());
    match r {
        Ok(did) => {
            check(did, "decoded as reported");
            check(what != env::FAIL, "failure reported");
            check(got.len() == plain.len() && eq(&got, &plain), "content");
            reach(1);
        }
        Err(_) => {
            check(what == env::FAIL, "only failures are reported");
            check(d.res_decoded().is_empty(), "list changed by failure");
            check(eq(&got, &enc), "body changed by failure");
            reach(2);
        }
    }
}

/// A gzip body of several members.
#[no_mangle]
pub extern "C" fn h_f11_members() {
    let (a, b) = (payload(pick(3)), payload(pick(3)));
    let mut enc = gz(&a);
    enc.extend_from_slice(&gz(&b));
    let mut plain = a;
    plain.extend_from_slice(&b);
    let mut map = http::HeaderMap::new();
    map.insert(http::header::CONTENT_ENCODING, "gzip".parse().expect("value"));
    let mut d = dialog(map, body_of(&enc, pick(4)));
    let tune = Tuner::new().set_temp_dir(dir())
        .set_buffer_size_ram([5, 64][pick(2) as usize]).finish();
    let r = decode_res_body(&mut d, &tune);
    check(r.is_ok(), "decoding failed");
    let got = read_body(d.res_body());
    check(eq(&got, &plain), "all members decoded");
    reach(1);
    out_bytes(&got);
}

// ---- request recording ----

fn drain<S>(s: &mut S) -> Vec<u8>
    where S: Stream<Item = Result<Bytes, io::Error>> + Unpin
{
    let (_f, w) = World::waker();
    let mut cx = Context::from_waker(&w);
    let mut v = Vec::with_capacity(16);
    loop {
        match Pin::new(&mut *s).poll_next(&mut cx) {
            Poll::Ready(Some(Ok(b))) => v.extend_from_slice(&b),
            Poll::Ready(None) => return v,
            _ => { check(false, "request body"); kill() }
        }
    }
}

#[no_mangle]
pub extern "C" fn h_f12_record() {
    type Rec = RequestRecord<AsyncBodyImage<Bytes>>;
    const M: [&str; 10] = ["GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS",
                           "TRACE", "PATCH", "CONNECT", "FROB"];
    const U: [&str; 5] = ["http://h/", "https://h:8/p?q", "/rel", "*",
                          "http://u:p@h/%20/?a=b&c"];
    const N: [&str; 10] = ["x-a", "content-type", "content-length", "host",
                           "content-encoding", "transfer-encoding", "accept",
                           "authorization", "cookie", "te"];
    let case = pick(10) as usize;
    let m = &http::Method::from_bytes(M[case].as_bytes()).expect("method");
    let url = U[case % 5];
    let name = N[case];
    let mut b = http::Request::builder().method(m.clone()).uri(url);
    let hv = any_bytes::<2>();
    assume(hv[0] > 0x20 && hv[0] < 0x7f && hv[1] > 0x20 && hv[1] < 0x7f);
    let nh = pick(3);
    if nh > 0 { b = b.header(name, &hv[..1]); }
    if nh > 1 { b = b.header(name, &hv[1..]); }
    let data = any_bytes::<6>();
    let n = pick(param(0, 3) as u8 + 1) as usize;
    let way = pick(3);
    let r: Result<Rec, http::Error> = match way {
        0 => b.record(),
        1 => b.record_body(Bytes::copy_from_slice(&data[..n])),
        _ => b.record_body_image(image(&data[..n]), FutioTunables::default()),
    };
    let want = if way == 0 { &data[..0] } else { &data[..n] };
    let rec = match r {
        Ok(r) => r,
        Err(_) => { check(false, "record failed"); return; }
    };
    check(rec.method() == m, "method recorded");
    check(rec.request().method() == m, "method of the request");
    check(*rec.url() == url, "url recorded");
    check(*rec.request().uri() == url, "url of the request");
    for h in [rec.req_headers(), rec.request().headers()].iter() {
        check(h.len() == nh as usize, "header count");
        check(h.get_all(name).iter().count() == nh as usize, "header name");
        let mut k = 0;
        for v in h.get_all(name).iter() {
            check(eq(v.as_bytes(), &hv[k..k + 1]), "header value");
            k += 1;
        }
    }
    check(rec.req_body().len() == want.len() as u64, "recorded length");
    let got = read_body(rec.req_body());
    check(eq(&got, want), "recorded body");
    let hint = http_body::Body::size_hint(rec.request().body());
    check(hint.exact() == Some(want.len() as u64), "length of the request");
    // the request itself streams the same
    let (_, mut s) = take_request(rec).into_parts();
    let sent = drain(&mut s);
    check(eq(&sent, want), "request body");
    reach(1 + way as u32);
    out_bytes(&got);
}

/// The request of a record is only lent: take its parts by replacing them.
fn take_request(r: RequestRecord<AsyncBodyImage<Bytes>>)
    -> http::Request<AsyncBodyImage<Bytes>>
{
    let p = r.request() as *const http::Request<AsyncBodyImage<Bytes>>;
    let q = unsafe { std::ptr::read(p) };
    std::mem::forget(r);
    q
}

// ---- tuning ----

#[no_mangle]
pub extern "C" fn h_f13_tuner() {
    use std::time::Duration;
    let (rs, rn) = (any_u64(), any_u32());
    let (bs, bn) = (any_u64(), any_u32());
    let item = any_u64() as usize;
    assume(rn < 1_000_000_000 && bn < 1_000_000_000 && item > 0);
    let (res, body) = (Duration::new(rs, rn), Duration::new(bs, bn));
    let (has_res, has_body) = (pick(2) == 1, pick(2) == 1);
    if has_res && has_body { assume(res <= body); }
    let mut t = FutioTuner::new();
    t.set_stream_item_size(item);
    // set, or unset after having been set
    if has_res { t.set_res_timeout(res); }
    else { t.set_res_timeout(res).unset_res_timeout(); }
    if has_body { t.set_body_timeout(body); }
    else { t.set_body_timeout(body).unset_body_timeout(); }
    let img = Tuner::new().set_max_body(any_u64() | 1 << 30).finish();
    t.set_image(img.clone());
    let sem: &'static blocking_permit::Semaphore = Box::leak(Box::new(
        blocking_permit::Semaphorish::default_new(1)));
    let policy = pick(3);
    t.set_blocking_policy(match policy {
        0 => BlockingPolicy::Direct,
        1 => BlockingPolicy::Permit(sem),
        _ => BlockingPolicy::Dispatch,
    });
    let t = t.finish();
    for t in [&t, &t.clone()].iter() {
        check(t.stream_item_size() == item, "stream_item_size");
        check(t.res_timeout() == if has_res { Some(res) } else { None },
              "res_timeout");
        check(t.body_timeout() == if has_body { Some(body) } else { None },
              "body_timeout");
        check(t.image().max_body() == img.max_body(), "image");
        check(match (policy, t.blocking_policy()) {
            (0, BlockingPolicy::Direct) => true,
            (1, BlockingPolicy::Permit(s)) => std::ptr::eq(s, sem),
            (2, BlockingPolicy::Dispatch) => true,
            _ => false,
        }, "blocking policy");
        check(match t.blocking_semaphore() {
            Some(s) => policy == 1 && std::ptr::eq(s, sem),
            None => policy != 1,
        }, "semaphore");
    }
    reach(1);
    out(t.stream_item_size() as u64);
}

#[no_mangle]
pub extern "C" fn h_f13_defaults() {
    use std::time::Duration;
    let set = pick(16);
    let has = |i: u8| set & 1 << i != 0;
    let (rs, bs) = (any_u64(), any_u64());
    let item = any_u64() as usize;
    assume(item > 0);
    let body = if has(1) { bs } else { 60 };
    if has(0) { assume(rs <= body); }
    let mut t = FutioTuner::new();
    if has(0) { t.set_res_timeout(Duration::from_secs(rs)); }
    if has(1) { t.set_body_timeout(Duration::from_secs(bs)); }
    if has(2) { t.set_stream_item_size(item); }
    if has(3) {
        t.set_image(Tuner::new().set_max_body(any_u64() | 1 << 20).finish());
    }
    let t = t.finish();
    check(t.res_timeout() ==
          if has(0) { Some(Duration::from_secs(rs)) } else { None },
          "res_timeout");
    check(t.body_timeout() == Some(Duration::from_secs(body)),
          "body_timeout");
    check(t.stream_item_size() == if has(2) { item } else { 512 * 1024 },
          "stream_item_size");
    check(has(3) || t.image().max_body() == Tunables::new().max_body(),
          "image");
    check(matches!(t.blocking_policy(), BlockingPolicy::Direct), "policy");
    check(t.blocking_semaphore().is_none(), "semaphore");
    reach(1);
    out(t.stream_item_size() as u64);
}

static mut BAD: [u64; 4] = [0; 4];

/// Settings that contradict each other are refused, and no others are.
#[no_mangle]
pub extern "C" fn h_f13_refuse() {
    use std::time::Duration;
    unsafe { BAD = [any_u64(), any_u64(), pick(8) as u64, 0]; }
    let [a, b, way, _] = unsafe { BAD };
    assume(a < 1 << 40 && b < 1 << 40);
    let p = panics(|| {
        let [a, b, way, _] = unsafe { BAD };
        match way {
            0 => {
                let mut t = FutioTuner::new();
                t.set_res_timeout(Duration::new(a >> 9, a as u32 & 511))
                    .set_body_timeout(Duration::new(b >> 9, b as u32 & 511));
                t.finish();
            }
            1 => {
                let mut t = FutioTuner::new();
                t.set_stream_item_size(a as usize);
            }
            2 => {
                Tuner::new().set_max_body_ram(a).set_max_body(b).finish();
            }
            3 => { Tuner::new().set_buffer_size_ram(a as usize); }
            4 => { Tuner::new().set_buffer_size_fs(a as usize); }
            5 => { Tuner::new().set_size_estimate_deflate(a as u16); }
            6 => { Tuner::new().set_size_estimate_gzip(a as u16); }
            _ => { Tuner::new().set_size_estimate_brotli(a as u16); }
        }
    });
    let bad = match way {
        0 | 2 => a > b,
        1 | 3 | 4 => a == 0,
        _ => a as u16 == 0,
    };
    check(p == bad, "refused exactly when not usable");
    if p { reach(1) } else { reach(2) }
    out(p as u64);
}

// ---- what is held ----

/// Directory for the files of bodies, and what is held before there are any.
fn own_dir() -> (usize, usize) {
    std::fs::create_dir(path("t")).expect("create_dir");
    put_file("src", b"abcd");
    env::creating_in(path("t"));
    env::held()
}

fn all_released(before: (usize, usize)) {
    env::disarm();
    check(env::held().0 == before.0, "all descriptors closed");
    check(env::held().1 == before.1, "all maps removed");
    check(names("t") == 0, "no file is left");
    check(env::created_outside() == 0, "files only where configured");
}

fn own_tune() -> Tunables {
    Tuner::new().set_max_body_ram(1).set_max_body(4)
        .set_buffer_size_ram(2).set_buffer_size_fs(2)
        .set_temp_dir(path("t")).finish()
}

fn one_fault(ops: &[Op]) {
    let k = pick(ops.len() as u8 + 1) as usize;
    if k > 0 {
        env::arm(&[Fault { op: ops[k - 1] as u8, nth: pick(2),
                           what: env::FAIL }]);
    }
}

/// A stream is given up after some polls, with items still in use.
fn stream_held<B, S>(kind: Kind)
    where B: OutputBuf + AsRef<[u8]>,
          S: StreamWrapper + Stream<Item = Result<B, io::Error>> + Unpin
{
    let mut w = World::new(kind);
    let before = own_dir();
    let mut b = match pick(2) {
        0 => {
            let mut s = BodySink::with_fs(path("t")).expect("with_fs");
            s.write_all(b"abcd").expect("write");
            s.prepare().expect("prepare")
        }
        _ => {
            let f = std::fs::File::open(path("src")).expect("open");
            unsafe { BodyImage::from_file(f, 4) }
        }
    };
    if pick(2) == 1 { b.mem_map().expect("mem_map"); reach(1); }
    let clone = if pick(2) == 1 { Some(b.clone()) } else { None };
    one_fault(&[Op::Read]);
    let mut s = S::new(b, tune(kind, &w, own_tune(), 1 + pick(2) as usize));
    let mut items: Vec<B> = Vec::with_capacity(8);
    let (_f, waker) = World::waker();
    let mut cx = Context::from_waker(&waker);
    for _ in 0..pick(param(0, 5) as u8) {
        w.maybe_hold();
        match w.poll(&mut cx, &mut |cx: &mut Context<'_>| {
            Pin::new(&mut s).poll_next(cx)
        }) {
            Poll::Ready(Some(Ok(b))) => items.push(b),
            Poll::Ready(_) => break,
            Poll::Pending => { if pick(2) == 1 && !w.release() { w.run_task(); } }
        }
    }
    if env::held() != before { reach(2); }
    match pick(3) {
        0 => { drop(s); drop(items); while w.run_task() {} }
        1 => { drop(items); while w.run_task() {} drop(s); }
        _ => {
            while w.run_task() {}
            drop(s);
            for i in items { drop(i); }
        }
    }
    drop(clone);
    drop(w);
    all_released(before);
}

/// A sink is given up after some polls, or its body is taken.
fn sink_held<S>(kind: Kind)
    where S: SinkWrapper<Bytes> + Sink<Bytes, Error = FutioError> + Unpin
{
    let mut w = World::new(kind);
    let before = own_dir();
    let start = match pick(2) {
        0 => BodySink::with_ram(4),
        _ => BodySink::with_fs(path("t")).expect("with_fs"),
    };
    one_fault(&[Op::Write, Op::Open]);
    let mut s = S::new(start, tune(kind, &w, own_tune(), 64));
    let (_f, waker) = World::waker();
    let mut cx = Context::from_waker(&waker);
    let mut sent = 0;
    for _ in 0..pick(param(0, 5) as u8) {
        w.maybe_hold();
        match w.poll(&mut cx, &mut |cx: &mut Context<'_>| {
            Pin::new(&mut s).poll_ready(cx)
        }) {
            Poll::Ready(Ok(())) => {
                let n = 1 + pick(2) as usize;
                Pin::new(&mut s).start_send(Bytes::from_static(&b"xy"[..n]))
                    .expect("start_send");
                sent += 1;
            }
            Poll::Ready(_) => break,
            Poll::Pending => { if pick(2) == 1 && !w.release() { w.run_task(); } }
        }
    }
    if env::held() != before { reach(3); }
    let end = pick(3);
    if end == 0 {
        drop(s);
        while w.run_task() {}
    } else {
        while w.run_task() {}
        // a body is only taken when nothing is outstanding
        if end == 1 && sent == 0 {
            let mut b = s.into_inner().prepare();
            if let Ok(b) = &mut b { b.mem_map().ok(); }
            drop(b);
        } else {
            drop(s);
        }
    }
    drop(w);
    all_released(before);
}

/// A decoded body is in a file, or decoding fails.
fn decode_held() {
    let before = own_dir();
    let (name, mut enc) = match pick(3) {
        0 => ("gzip", gz(b"abcd")),
        1 => ("deflate", deflated(b"abcd")),
        _ => ("br", br(b"abcd")),
    };
    let cut = pick(2) as usize * 2;
    enc.truncate(enc.len() - cut);
    let mut map = http::HeaderMap::new();
    map.insert(http::header::CONTENT_ENCODING, name.parse().expect("value"));
    let body = {
        let mut s = match pick(2) {
            0 => BodySink::with_ram(64),
            _ => BodySink::with_fs(path("t")).expect("with_fs"),
        };
        s.write_all(&enc[..]).expect("write");
        s.prepare().expect("prepare")
    };
    let mut d = dialog(map, body);
    one_fault(&[Op::Write, Op::Open, Op::Seek]);
    let c = if pick(2) == 1 { Some(d.clone()) } else { None };
    if decode_res_body(&mut d, &own_tune()).is_ok()
        && !d.res_body().is_ram() { reach(4); }
    if pick(2) == 1 { drop(d); drop(c); } else { drop(c); drop(d); }
    all_released(before);
}

#[no_mangle]
pub extern "C" fn h_c07_async() {
    match pick(9) {
        0 => stream_held::<Bytes, AsyncBodyImage<Bytes>>(Kind::Direct),
        1 => stream_held::<UniBodyBuf, SplitBodyImage<UniBodyBuf>>(
            Kind::Direct),
        2 => stream_held::<UniBodyBuf, YieldBodyImage<UniBodyBuf>>(
            Kind::Direct),
        3 => stream_held::<UniBodyBuf, PermitBodyImage<UniBodyBuf>>(
            Kind::Permit),
        4 => stream_held::<UniBodyBuf, DispatchBodyImage<UniBodyBuf>>(
            Kind::Dispatch),
        5 => sink_held::<AsyncBodySink<Bytes>>(Kind::Direct),
        6 => sink_held::<PermitBodySink<Bytes>>(Kind::Permit),
        7 => sink_held::<DispatchBodySink<Bytes>>(Kind::Dispatch),
        _ => decode_held(),
    }
}

harnesses!(h_f01_direct, h_f01_permit, h_f01_dispatch, h_f03_direct,
           h_f03_permit, h_f03_dispatch, h_f03_yield, h_f03_long, h_f03_far, h_f03_large,
           h_f06_two, h_f07_sizes,
           h_f07_forward, h_f08_sink_faults, h_f08_stream_faults, h_f09_buf, h_f09_past,
           h_f10_find, h_f10_name, h_f11_unknown, h_f11_slow, h_f11_decode, h_f11_layers, h_f11_damage,
           h_f11_members, h_f12_record, h_f13_tuner, h_f13_defaults,
           h_f13_refuse, h_c07_async);
