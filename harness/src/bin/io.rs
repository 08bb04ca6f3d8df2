//! Buffered and plain byte I/O against positional models.
use futures::future::{self, Future};
use futures::io::{
    self as fio, AllowStdIo, AsyncBufRead, AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt, AsyncWrite,
    AsyncWriteExt, BufReader, BufWriter, Cursor, LineWriter, Window,
};
use futures::sink::SinkExt;
use futures::stream::{StreamExt, TryStreamExt};
use futures_sink::Sink;
use std::collections::VecDeque;
use std::io::{self, BufRead, ErrorKind, IoSlice, IoSliceMut, Read, Seek, SeekFrom, Write};
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use vh::iol::{bytes, is_injected, target, text, LRead, LWrite, RSt, HALF};
use vh::leaf::{LStream, SStep};
use vh::par::{self, body, Body};
use vh::runner::{main_for, sub, Prop};
use vh::sim::{drive, drive_some, Poller, World};
use vh::thr::Evs;
use vh::Case;

const CAPS: [usize; 7] = [1, 2, 3, 5, 8, 64, 0];

/// Runs a future to its end, or (`None`) gives it up midway.
fn run<T>(p: &mut Poller, w: &World, what: &str, abandon: bool, f: impl Future<Output = T>) -> Option<T> {
    let mut f = pin!(f);
    p.set_woken();
    if abandon && p.case.chance(1, 6) {
        let n = 1 + p.case.below(5);
        let r = drive_some(p, w, what, n, |cx| f.as_mut().poll(cx));
        if r.is_none() {
            p.case.label("abandoned");
            p.case.log(|| format!("{what}: given up"));
        }
        r
    } else {
        Some(drive(p, w, what, |cx| f.as_mut().poll(cx)))
    }
}

fn at(data: &[u8], pos: u64) -> &[u8] {
    &data[((pos & !HALF).min(data.len() as u64)) as usize..]
}

fn gen_seek(case: &Case, len: usize) -> SeekFrom {
    let n = len as i64 + 3;
    match case.weighted(&[4, 4, 6, 1]) {
        0 => SeekFrom::Start(case.below(n as usize) as u64),
        1 => SeekFrom::End(case.below(2 * n as usize) as i64 - n),
        2 => SeekFrom::Current(case.below(2 * n as usize) as i64 - n),
        _ => match case.below(5) {
            0 => SeekFrom::Current(i64::MIN),
            1 => SeekFrom::Current(i64::MIN + 1 + case.below(4) as i64),
            2 => SeekFrom::Current(i64::MAX),
            3 => SeekFrom::End(i64::MIN),
            _ => SeekFrom::Start(u64::MAX),
        },
    }
}

/// Splits room for `n` bytes into buffers (some empty).
fn cut(case: &Case, mut n: usize) -> Vec<usize> {
    let mut v = vec![];
    while n > 0 || case.chance(1, 5) {
        let k = case.below(n + 1).min(n);
        v.push(k);
        n -= k;
        if v.len() > 5 {
            v.push(n);
            break;
        }
    }
    v
}

// ---------------------------------------------------------------- C22

fn buf_reader(case: &Case) {
    let w = World::new(case);
    let data = bytes(case, 40);
    let errs = case.chance(1, 2);
    let mut inner = LRead::new(&w, "inner", data.clone(), errs);
    let st = inner.st.clone();
    let cap = *case.pick(&CAPS);
    let wide = case.chance(1, 8);
    inner.wide = wide;
    let top = if wide { u64::MAX } else { 1 << 40 };
    let mut pos = 0u64;
    if wide {
        pos = HALF;
        st.lock().unwrap().pos = pos as usize;
    }
    case.log(|| format!("BufReader with capacity {cap} over {} bytes", data.len()));
    let mut r = Box::pin(BufReader::with_capacity(cap, inner));
    let mut p = Poller::new(case);
    let (mut did, mut seeks) = (0, 0);
    for _ in 0..case.range(1, 14) {
        let errors = st.lock().unwrap().errors;
        let err;
        let held = r.buffer().len();
        match case.weighted(&[6, 3, 6, 4, 5, 2]) {
            0 => {
                let n = case.below(13);
                let mut b = vec![0; n];
                let Some(x) = run(&mut p, &w, "read", true, r.read(&mut b)) else { continue };
                case.log(|| format!("at {pos}: read({n}) = {x:?}"));
                err = x.as_ref().err().map(|e| e.to_string());
                if let Ok(k) = x {
                    case.check(k <= n, || format!("read({n}) = {k}"));
                    let rest = at(&data, pos);
                    case.check(k > 0 || n == 0 || rest.is_empty(), || format!("read({n}) = 0 at {pos} of {}", data.len()));
                    case.check(k <= rest.len() && b[..k] == rest[..k], || format!("read at {pos}: got {:?}", &b[..k]));
                    pos += k as u64;
                    did += k;
                }
            }
            1 => {
                let n = case.below(13);
                let lens = cut(case, n);
                let mut bs: Vec<Vec<u8>> = lens.iter().map(|k| vec![0; *k]).collect();
                let x = {
                    let mut io: Vec<IoSliceMut<'_>> = bs.iter_mut().map(|b| IoSliceMut::new(b)).collect();
                    run(&mut p, &w, "read_vectored", true, r.read_vectored(&mut io))
                };
                let Some(x) = x else { continue };
                case.log(|| format!("at {pos}: read_vectored({lens:?}) = {x:?}"));
                err = x.as_ref().err().map(|e| e.to_string());
                if let Ok(k) = x {
                    let b = bs.concat();
                    case.check(k <= b.len(), || format!("read_vectored({lens:?}) = {k}"));
                    let rest = at(&data, pos);
                    case.check(k > 0 || b.is_empty() || rest.is_empty(), || format!("read_vectored({lens:?}) = 0 at {pos} of {}", data.len()));
                    case.check(k <= rest.len() && b[..k] == rest[..k], || format!("read_vectored at {pos}: got {:?}", &b[..k]));
                    pos += k as u64;
                    did += k;
                }
            }
            2 => {
                if cap == 0 {
                    continue;
                }
                let x = match run(&mut p, &w, "fill_buf", true, r.fill_buf()) {
                    None => continue,
                    Some(x) => x.map(|b| b.to_vec()),
                };
                case.log(|| format!("at {pos}: fill_buf = {:?}", x.as_ref().map(|b| b.len())));
                err = x.as_ref().err().map(|e| e.to_string());
                if let Ok(b) = x {
                    let rest = at(&data, pos);
                    case.check(b.is_empty() == rest.is_empty(), || format!("fill_buf at {pos} of {}: {} bytes", data.len(), b.len()));
                    case.check(b.len() <= rest.len() && b[..] == rest[..b.len()], || format!("fill_buf at {pos}: {b:?}"));
                    case.check(r.buffer() == &b[..], || format!("buffer() is {:?} after fill_buf gave {b:?}", r.buffer()));
                    let k = case.below(b.len() + 1);
                    r.as_mut().consume(k);
                    case.log(|| format!("consume({k})"));
                    pos += k as u64;
                    did += k;
                }
            }
            3 => {
                let mut to = gen_seek(case, data.len());
                if let (true, SeekFrom::Start(n)) = (wide && case.bool(), to) {
                    to = SeekFrom::Start(n | HALF);
                }
                let Some(x) = run(&mut p, &w, "seek", true, r.seek(to)) else { continue };
                case.log(|| format!("at {pos}: seek({to:?}) = {x:?}"));
                let t = target(pos, data.len() as u64, to).filter(|t| *t <= top);
                err = x.as_ref().err().filter(|e| is_injected(e)).map(|e| e.to_string());
                match x {
                    Ok(n) => {
                        case.eq(Some(n), t, "result of the seek");
                        case.check(r.buffer().is_empty(), || "the buffer is not discarded by a seek".into());
                        pos = n;
                        seeks += 1;
                    }
                    Err(e) if !is_injected(&e) => case.check(t.is_none(), || format!("seek to {t:?} failed: {e}")),
                    Err(_) => (),
                }
            }
            4 => {
                let off = match case.weighted(&[12, 1]) {
                    0 => case.below(21) as i64 - 10,
                    _ => *case.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, i64::MIN + 7, i64::MAX - 3]),
                };
                let before = st.lock().unwrap().seeks;
                let x = if case.bool() {
                    run(&mut p, &w, "seek_relative", true, r.as_mut().seek_relative(off))
                } else {
                    // the poll function is also public
                    p.set_woken();
                    Some(drive(&mut p, &w, "poll_seek_relative", |cx| r.as_mut().poll_seek_relative(cx, off)))
                };
                let Some(x) = x else { continue };
                case.log(|| format!("at {pos}: seek_relative({off}) = {x:?}"));
                let t = pos.checked_add_signed(off).filter(|t| *t <= top);
                err = x.as_ref().err().filter(|e| is_injected(e)).map(|e| e.to_string());
                match x {
                    Ok(()) => {
                        case.check(t.is_some(), || format!("seek_relative({off}) at {pos} succeeded"));
                        pos = t.unwrap();
                        seeks += 1;
                        if off >= 0 && off as u64 <= held as u64 {
                            case.check(st.lock().unwrap().seeks == before, || format!("seek_relative({off}) within the {held} buffered bytes went to the reader"));
                            case.check(r.buffer().len() == held - off as usize, || "seek_relative within the buffer discarded it".into());
                            case.label("relative_within");
                        }
                    }
                    Err(e) if !is_injected(&e) => case.check(t.is_none(), || format!("seek_relative to {t:?} failed: {e}")),
                    Err(_) => (),
                }
            }
            _ => {
                let Some(x) = run(&mut p, &w, "stream_position", true, r.stream_position()) else { continue };
                case.log(|| format!("at {pos}: stream_position = {x:?}"));
                err = x.as_ref().err().map(|e| e.to_string());
                if let Ok(n) = x {
                    case.eq(n, pos, "stream_position");
                }
            }
        }
        let now = st.lock().unwrap().errors;
        match err {
            Some(e) => {
                case.label("error");
                case.check(now == errors + 1 && e == format!("injected {now}"), || format!("error {e} with {now} raised, {errors} before"));
            }
            None => case.eq(now, errors, "errors raised by the reader but not reported"),
        }
        let rest = at(&data, pos);
        let b = r.buffer();
        case.check(b.len() <= cap && b.len() <= rest.len() && *b == rest[..b.len()], || format!("buffer() at {pos} is {b:?}"));
        let ip = st.lock().unwrap().pos as u64;
        case.check(ip == pos + b.len() as u64, || format!("the reader is at {ip}, the position is {pos} with {} bytes buffered", b.len()));
    }
    case.label_if(seeks > 0, "seek");
    case.label_if(wide, "huge_positions");
    if did > 0 && (seeks > 0 || did > cap) {
        case.nontrivial();
    }
    let ip = st.lock().unwrap().pos;
    case.eq(r.get_ref().st.lock().unwrap().pos, ip, "position of the reader");
}

// ---------------------------------------------------------------- C23

struct Sum {
    accepted: Vec<u8>,
}

fn check_prefix(case: &Case, acc: &[u8], got: &[u8], buf: &[u8], cap: usize) {
    case.check(got.len() <= acc.len() && *got == acc[..got.len()], || format!("the writer got {got:?}, accepted was {acc:?}"));
    case.check(acc.ends_with(buf), || format!("buffered {buf:?} is not the end of what was accepted {acc:?}"));
    case.check(acc.len() - buf.len() <= got.len(), || format!("{} accepted, {} written, only {} buffered: bytes lost", acc.len(), got.len(), buf.len()));
    case.check(buf.len() <= cap, || format!("{} bytes buffered with a capacity of {cap}", buf.len()));
}

/// Bytes that differ from their neighbours, with line ends mixed in.
fn chunk(case: &Case, seq: &mut u8, lines: bool) -> Vec<u8> {
    let n = if case.chance(1, 8) { case.below(40) } else { case.below(9) };
    (0..n)
        .map(|_| {
            if lines && case.chance(1, 4) {
                return b'\n';
            }
            *seq = seq.wrapping_add(1);
            if *seq == b'\n' {
                *seq += 1;
            }
            *seq
        })
        .collect()
}

fn writer<W: AsyncWrite>(
    case: &Case,
    lines: bool,
    whole: bool,
    cap: usize,
    w: &World,
    st: Arc<Mutex<vh::iol::WSt>>,
    mut out: Pin<Box<W>>,
    buffer: impl Fn(&W) -> Vec<u8>,
) {
    let mut p = Poller::new(case);
    let mut m = Sum { accepted: vec![] };
    let mut seq = 0u8;
    let mut flushed = 0;
    for _ in 0..case.range(1, 14) {
        let (errors, zeros, writes) = {
            let s = st.lock().unwrap();
            (s.errors, s.zeros, s.writes)
        };
        let held = buffer(&out).len();
        let before = m.accepted.len();
        let err: Option<io::Error>;
        let mut zero_ok = false;
        let mut quit = false;
        match case.weighted(&[10, 5, 3, 3, 1]) {
            k @ (0 | 1) => {
                let b = chunk(case, &mut seq, lines);
                let r = if k == 0 {
                    run(&mut p, w, "write", true, out.write(&b))
                } else {
                    let mut at = 0;
                    let lens = cut(case, b.len());
                    case.log(|| format!("vectored {lens:?}"));
                    let io: Vec<IoSlice<'_>> = lens
                        .iter()
                        .map(|n| {
                            at += n;
                            IoSlice::new(&b[at - n..at])
                        })
                        .collect();
                    run(&mut p, w, "write_vectored", true, out.write_vectored(&io))
                };
                let r = match r {
                    Some(r) => r,
                    None => {
                        // nothing of it was accepted
                        check_prefix(case, &m.accepted, &st.lock().unwrap().got, &buffer(&out), cap);
                        continue;
                    }
                };
                case.log(|| format!("write({b:?}) = {r:?}"));
                match r {
                    Ok(n) => {
                        let now = st.lock().unwrap();
                        case.check(n <= b.len(), || format!("write({}) = {n}", b.len()));
                        case.check(n > 0 || b.is_empty() || now.zeros > zeros, || format!("write({}) = 0, the writer never returned 0", b.len()));
                        zero_ok = n == 0 || n < b.len();
                        if !lines && held + b.len() <= cap && b.len() < cap {
                            case.check(now.writes == writes, || "a write that fits into the buffer went to the writer".into());
                            case.check(n == b.len(), || format!("a write of {} that fits into the buffer accepted {n}", b.len()));
                        }
                        if lines && n > 0 {
                            let done = m.accepted.iter().rposition(|x| *x == b'\n').map_or(0, |i| i + 1);
                            case.check(now.got.len() >= done, || format!("{done} bytes of complete lines accepted earlier, only {} written", now.got.len()));
                        }
                        m.accepted.extend_from_slice(&b[..n]);
                        if lines && whole {
                            let done = m.accepted.iter().rposition(|x| *x == b'\n').map_or(0, |i| i + 1);
                            case.check(now.got.len() >= done, || format!("{done} bytes of complete lines, only {} written", now.got.len()));
                        }
                        err = None;
                    }
                    Err(e) => err = Some(e),
                }
            }
            k @ (2 | 3) => {
                // write_all may have got anywhere when it fails, so only flush and read back
                let _ = k;
                let Some(r) = run(&mut p, w, "flush", true, out.flush()) else {
                    check_prefix(case, &m.accepted, &st.lock().unwrap().got, &buffer(&out), cap);
                    continue;
                };
                case.log(|| format!("flush = {r:?}"));
                if r.is_ok() {
                    let s = st.lock().unwrap();
                    case.check(s.got == m.accepted, || format!("after a flush: got {:?}, accepted {:?}", s.got, m.accepted));
                    case.check(s.flushed == s.got.len(), || "the flush did not reach the writer".into());
                    flushed += 1;
                }
                err = r.err();
            }
            _ => {
                let Some(r) = run(&mut p, w, "close", true, out.close()) else {
                    check_prefix(case, &m.accepted, &st.lock().unwrap().got, &buffer(&out), cap);
                    continue;
                };
                case.log(|| format!("close = {r:?}"));
                if r.is_ok() {
                    let s = st.lock().unwrap();
                    case.check(s.got == m.accepted, || format!("after close: got {:?}, accepted {:?}", s.got, m.accepted));
                    case.check(s.closed, || "the close did not reach the writer".into());
                    quit = true;
                    case.label("closed");
                }
                err = r.err();
            }
        }
        let s = st.lock().unwrap();
        if let Some(e) = err {
            case.label("error");
            case.eq(m.accepted.len(), before, "bytes accepted by a failed write");
            case.check(is_injected(&e) && s.errors == errors + 1 || e.kind() == ErrorKind::WriteZero && s.zeros > zeros, || format!("error {e} out of nowhere"));
        } else {
            case.eq(s.errors, errors, "errors raised by the writer but not reported");
            case.check(s.zeros == zeros || zero_ok, || "the writer took nothing, and no error was reported".into());
        }
        check_prefix(case, &m.accepted, &s.got, &buffer(&out), cap);
        if quit {
            break;
        }
    }
    // Retrying gets everything through in the end.
    let mut tries = 0;
    if !st.lock().unwrap().closed {
        loop {
            if let Ok(()) = run(&mut p, w, "final flush", false, out.flush()).unwrap() {
                break;
            }
            tries += 1;
            case.check(tries < 2000, || "flush keeps failing".into());
        }
    }
    let s = st.lock().unwrap();
    case.check(s.got == m.accepted, || format!("at the end: got {:?}, accepted {:?}", s.got, m.accepted));
    case.label_if(s.shorts > 0, "short_write");
    if m.accepted.len() > cap || flushed > 0 && m.accepted.len() > 1 {
        case.nontrivial();
    }
}

fn buf_writer(case: &Case) {
    let w = World::new(case);
    let (e, z) = (case.bool(), case.chance(1, 4));
    let inner = LWrite::new(&w, e, z);
    let st = inner.st.clone();
    let cap = *case.pick(&CAPS);
    case.log(|| format!("BufWriter with capacity {cap}"));
    let b = Box::pin(BufWriter::with_capacity(cap, inner));
    writer(case, false, false, cap, &w, st, b, |b| b.buffer().to_vec());
}

fn line_writer(case: &Case) {
    let w = World::new(case);
    let (e, z, whole) = (case.bool(), case.chance(1, 4), case.bool());
    let inner = LWrite::new(&w, e, z && !whole);
    let inner = if whole { inner.whole() } else { inner };
    let st = inner.st.clone();
    let cap = *case.pick(&CAPS);
    case.log(|| format!("LineWriter with capacity {cap}, whole writes: {whole}"));
    let b = Box::pin(LineWriter::with_capacity(cap, inner));
    writer(case, true, whole, cap, &w, st, b, |b| b.buffer().to_vec());
}

/// A file: writes go to the current position.
fn put(file: &mut Vec<u8>, pos: &mut usize, b: &[u8]) {
    for x in b {
        while file.len() <= *pos {
            file.push(0);
        }
        file[*pos] = *x;
        *pos += 1;
    }
}

fn buf_writer_seek(case: &Case) {
    let w = World::new(case);
    let errs = case.chance(1, 3);
    let inner = LWrite::new(&w, errs, false);
    let st = inner.st.clone();
    let cap = *case.pick(&CAPS);
    case.log(|| format!("BufWriter with capacity {cap}, seeking"));
    let mut out = Box::pin(BufWriter::with_capacity(cap, inner));
    let mut p = Poller::new(case);
    let (mut file, mut pos) = (vec![], 0usize);
    let mut seq = 0;
    let mut seeks = 0;
    for _ in 0..case.range(1, 12) {
        match case.weighted(&[6, 4, 2]) {
            0 => {
                let b = chunk(case, &mut seq, false);
                let Some(r) = run(&mut p, &w, "write", true, out.write(&b)) else { continue };
                case.log(|| format!("write({b:?}) = {r:?}"));
                if let Ok(n) = r {
                    put(&mut file, &mut pos, &b[..n]);
                }
            }
            1 => {
                let n = file.len() as i64 + 4;
                let to = match case.below(4) {
                    0 => SeekFrom::Start(case.below(n as usize) as u64),
                    1 => SeekFrom::End(case.below(2 * n as usize) as i64 - n),
                    2 => SeekFrom::Current(case.below(2 * n as usize) as i64 - n),
                    _ => SeekFrom::Current(0),
                };
                let Some(r) = run(&mut p, &w, "seek", true, out.seek(to)) else { continue };
                case.log(|| format!("at {pos} of {}: seek({to:?}) = {r:?}", file.len()));
                let t = target(pos as u64, file.len() as u64, to).filter(|n| *n <= 200);
                match r {
                    Ok(n) => {
                        case.eq(Some(n), t, "result of the seek");
                        pos = n as usize;
                        let s = st.lock().unwrap();
                        case.check(s.got == file, || format!("after a seek the file is {:?}, want {file:?}", s.got));
                        case.eq(s.pos, pos, "position after the seek");
                        seeks += 1;
                    }
                    Err(e) if !is_injected(&e) => case.check(t.is_none(), || format!("seek to {t:?} failed: {e}")),
                    Err(_) => (),
                }
            }
            _ => {
                let Some(r) = run(&mut p, &w, "flush", true, out.flush()) else { continue };
                if r.is_ok() {
                    let s = st.lock().unwrap();
                    case.check(s.got == file && s.pos == pos, || format!("after a flush the file is {:?} at {}, want {file:?} at {pos}", s.got, s.pos));
                }
            }
        }
    }
    while run(&mut p, &w, "final flush", false, out.flush()).unwrap().is_err() {}
    let s = st.lock().unwrap();
    case.check(s.got == file, || format!("at the end the file is {:?}, want {file:?}", s.got));
    if seeks > 0 && file.len() > 1 {
        case.nontrivial();
    }
}

// ---------------------------------------------------------------- C24

trait Bufd: AsyncBufRead {}
impl<T: AsyncBufRead> Bufd for T {}
type BR = Pin<Box<dyn Bufd>>;

struct Comp<'c> {
    case: &'c Case,
    w: World,
    errors: bool,
    text: bool,
    leaves: Vec<(Arc<Mutex<RSt>>, usize)>,
    depth: usize,
    ops: Vec<&'static str>,
}

impl Comp<'_> {
    fn bytes(&mut self) -> Vec<u8> {
        if self.text {
            text(self.case, 20, self.case.chance(1, 8))
        } else {
            bytes(self.case, 24)
        }
    }
    /// A reader and what it yields.
    fn gen(&mut self, depth: usize) -> (BR, Vec<u8>) {
        let case = self.case;
        self.depth = self.depth.max(depth);
        let k = if depth >= 3 { case.weighted(&[6, 1, 1, 1]) } else { case.weighted(&[6, 1, 1, 2, 4, 4, 3, 1, 1]) };
        self.ops.push(["leaf", "cursor", "slice", "stream", "take", "chain", "buf", "box", "empty"][k]);
        match k {
            0 => {
                let d = self.bytes();
                let r = LRead::new(&self.w, "leaf", d.clone(), self.errors);
                self.leaves.push((r.st.clone(), usize::MAX));
                (Box::pin(r), d)
            }
            2 if cfg!(not(miri)) => {
                let d = self.bytes();
                let s: &'static [u8] = Box::leak(d.clone().into_boxed_slice());
                (Box::pin(s), d)
            }
            1 | 2 => {
                let d = self.bytes();
                (Box::pin(Cursor::new(d.clone())), d)
            }
            3 => {
                let (s, d) = chunks(case, &self.w, self.text);
                (Box::pin(s.into_async_read()), d)
            }
            4 => {
                let from = self.ops.len();
                let (r, mut d) = self.gen(depth + 1);
                let n = *case.pick(&[0u64, 1, 2, 3, 5, 8, 20, 1 << 40, u64::MAX]);
                d.truncate(n.min(1000) as usize);
                // directly over a leaf (a buffer in between looks ahead)
                if self.ops[from..] == ["leaf"] {
                    let l = self.leaves.last_mut().unwrap();
                    l.1 = l.1.min(n.min(1000) as usize);
                }
                (Box::pin(r.take(n)), d)
            }
            5 => {
                let (a, mut d) = self.gen(depth + 1);
                let (b, e) = self.gen(depth + 1);
                d.extend_from_slice(&e);
                (Box::pin(a.chain(b)), d)
            }
            6 => {
                let (r, d) = self.gen(depth + 1);
                // looks ahead
                let cap = *case.pick(&CAPS[..6]);
                (Box::pin(BufReader::with_capacity(cap, r)), d)
            }
            7 => {
                let (r, d) = self.gen(depth + 1);
                (Box::pin(Box::new(r)), d)
            }
            _ => (Box::pin(fio::empty()), vec![]),
        }
    }
}

fn chunks(case: &Case, w: &World, txt: bool) -> (LStream<io::Result<Vec<u8>>>, Vec<u8>) {
    let mut seq = 0u8;
    let v = case.vec(5, |c| {
        if txt {
            text(c, 8, c.chance(1, 10))
        } else {
            (0..c.below(7))
                .map(|_| {
                    seq += 1;
                    seq
                })
                .collect::<Vec<u8>>()
        }
    });
    let all = v.concat();
    (LStream::gen(w, "chunks", v.into_iter().map(Ok)), all)
}

fn readers(case: &Case) {
    let w = World::new(case);
    let txt = case.chance(2, 3);
    let errors = case.chance(1, 3);
    let mut c = Comp { case, w: w.clone(), errors, text: txt, leaves: vec![], depth: 0, ops: vec![] };
    let (mut r, data) = c.gen(0);
    case.log(|| format!("reader {:?} over {:?}", c.ops, String::from_utf8_lossy(&data)));
    let raised = |c: &Comp<'_>| c.leaves.iter().map(|l| l.0.lock().unwrap().errors).sum::<usize>();
    let mut p = Poller::new(case);
    let mut pos = 0usize;
    for _ in 0..case.range(1, 10) {
        let before = raised(&c);
        let rest = &data[pos..];
        let mut go_on = true;
        let err: Option<io::Error>;
        match case.weighted(&[4, 2, 4, 3, 3, 3, 1, 1, 2, 1]) {
            0 => {
                let n = case.below(9);
                let mut b = vec![0; n];
                let Some(x) = run(&mut p, &w, "read", true, r.read(&mut b)) else { continue };
                case.log(|| format!("at {pos}: read({n}) = {x:?}"));
                if let Ok(k) = x {
                    case.check(k <= n && k <= rest.len() && b[..k] == rest[..k], || format!("read({n}) at {pos} = {k}: {b:?}"));
                    case.check(k > 0 || n == 0 || rest.is_empty(), || format!("read({n}) = 0 at {pos} of {}", data.len()));
                    pos += k;
                }
                err = x.err();
            }
            1 => {
                let n = case.below(12);
                let lens = cut(case, n);
                let mut bs: Vec<Vec<u8>> = lens.iter().map(|k| vec![0; *k]).collect();
                let x = {
                    let mut io: Vec<IoSliceMut<'_>> = bs.iter_mut().map(|b| IoSliceMut::new(b)).collect();
                    run(&mut p, &w, "read_vectored", true, r.read_vectored(&mut io))
                };
                let Some(x) = x else { continue };
                case.log(|| format!("at {pos}: read_vectored({lens:?}) = {x:?}"));
                if let Ok(k) = x {
                    let b = bs.concat();
                    case.check(k <= b.len() && k <= rest.len() && b[..k] == rest[..k], || format!("read_vectored({lens:?}) at {pos} = {k}: {b:?}"));
                    case.check(k > 0 || b.is_empty() || rest.is_empty(), || format!("read_vectored({lens:?}) = 0 at {pos} of {}", data.len()));
                    pos += k;
                }
                err = x.err();
            }
            2 => {
                let x = match run(&mut p, &w, "fill_buf", true, r.fill_buf()) {
                    None => continue,
                    Some(x) => x.map(|b| b.to_vec()),
                };
                case.log(|| format!("at {pos}: fill_buf = {x:?}"));
                if let Ok(b) = &x {
                    case.check(b.is_empty() == rest.is_empty(), || format!("fill_buf at {pos} of {}: {} bytes", data.len(), b.len()));
                    case.check(b.len() <= rest.len() && b[..] == rest[..b.len()], || format!("fill_buf at {pos}: {b:?}"));
                    let k = case.below(b.len() + 1);
                    if case.bool() {
                        r.consume_unpin(k);
                    } else {
                        r.as_mut().consume(k);
                    }
                    pos += k;
                }
                err = x.err();
            }
            3 => {
                let n = case.below(9);
                let mut b = vec![0; n];
                let Some(x) = run(&mut p, &w, "read_exact", true, r.read_exact(&mut b)) else { break };
                case.log(|| format!("at {pos}: read_exact({n}) = {x:?}"));
                match x {
                    Ok(()) => {
                        case.check(n <= rest.len() && b[..] == rest[..n], || format!("read_exact({n}) at {pos}: {b:?}"));
                        pos += n;
                        err = None;
                    }
                    Err(e) if e.kind() == ErrorKind::UnexpectedEof => {
                        case.check(n > rest.len(), || format!("read_exact({n}) hit the end at {pos} of {}", data.len()));
                        case.check(b[..rest.len()] == *rest, || format!("read_exact at the end: {b:?}"));
                        pos = data.len();
                        err = None;
                    }
                    Err(e) => {
                        err = Some(e);
                        go_on = false;
                    }
                }
            }
            4 => {
                let d = if rest.is_empty() || case.chance(1, 4) { b'\n' } else { rest[case.below(rest.len())] };
                let mut b = vec![1, 2];
                let x = run(&mut p, &w, "read_until", true, r.read_until(d, &mut b));
                case.log(|| format!("at {pos}: read_until({d}) = {x:?}, {b:?}"));
                let new = &b[2..];
                case.check(b[..2] == [1, 2] && new.len() <= rest.len() && *new == rest[..new.len()], || format!("read_until({d}) at {pos} gave {b:?}"));
                let end = rest.iter().position(|x| *x == d).map_or(rest.len(), |i| i + 1);
                case.check(new.len() <= end, || format!("read_until({d}) went past the delimiter: {b:?}"));
                if let Some(Ok(n)) = x {
                    case.eq(n, end, "result of read_until");
                    case.eq(new.len(), end, "bytes of read_until");
                }
                pos += new.len();
                err = x.and_then(|x| x.err());
            }
            5 => {
                let mut s = String::from("x\u{e9}");
                let x = run(&mut p, &w, "read_line", true, r.read_line(&mut s));
                case.log(|| format!("at {pos}: read_line = {x:?}, {s:?}"));
                let end = rest.iter().position(|x| *x == b'\n').map_or(rest.len(), |i| i + 1);
                case.check(std::str::from_utf8(s.as_bytes()).is_ok(), || "read_line left invalid UTF-8 in a string".into());
                case.check(s.starts_with("x\u{e9}"), || format!("read_line lost the contents of the string: {s:?}"));
                let new = &s.as_bytes()[3..];
                case.check(new.len() <= end && *new == rest[..new.len()], || format!("read_line at {pos} gave {s:?}"));
                match x {
                    None => {
                        case.eq(&s[..], "x\u{e9}", "the string after giving up read_line");
                        break;
                    }
                    Some(Ok(n)) => {
                        case.eq(n, end, "result of read_line");
                        case.eq(new.len(), end, "bytes of read_line");
                        pos += n;
                        err = None;
                    }
                    Some(Err(e)) if e.kind() == ErrorKind::InvalidData => {
                        case.check(std::str::from_utf8(&rest[..end]).is_err(), || format!("read_line refused {:?}", &rest[..end]));
                        case.eq(new.len(), 0, "bytes of an invalid line");
                        pos += end;
                        err = None;
                        case.label("invalid_utf8");
                    }
                    Some(Err(e)) => {
                        err = Some(e);
                        go_on = false;
                    }
                }
            }
            6 => {
                let mut b = Vec::with_capacity(case.below(40));
                b.extend([1, 2]);
                let x = run(&mut p, &w, "read_to_end", true, r.read_to_end(&mut b));
                case.log(|| format!("at {pos}: read_to_end = {x:?}, {b:?}"));
                let new = &b[2..];
                case.check(b[..2] == [1, 2] && new.len() <= rest.len() && *new == rest[..new.len()], || format!("read_to_end at {pos} gave {b:?}"));
                if let Some(Ok(n)) = x {
                    case.eq(n, rest.len(), "result of read_to_end");
                    case.eq(new.len(), rest.len(), "bytes of read_to_end");
                }
                pos += new.len();
                err = x.and_then(|x| x.err());
            }
            7 => {
                let mut s = String::from("x\u{e9}");
                let x = run(&mut p, &w, "read_to_string", true, r.read_to_string(&mut s));
                case.log(|| format!("at {pos}: read_to_string = {x:?}, {s:?}"));
                case.check(std::str::from_utf8(s.as_bytes()).is_ok(), || "read_to_string left invalid UTF-8 in a string".into());
                match x {
                    None => break,
                    Some(Ok(n)) => {
                        case.eq(n, rest.len(), "result of read_to_string");
                        case.check(s.as_bytes()[..3] == *"x\u{e9}".as_bytes() && s.as_bytes()[3..] == *rest, || format!("read_to_string at {pos} gave {s:?}"));
                        pos = data.len();
                        err = None;
                    }
                    Some(Err(e)) if e.kind() == ErrorKind::InvalidData => {
                        case.check(std::str::from_utf8(rest).is_err(), || format!("read_to_string refused {rest:?}"));
                        pos = data.len();
                        err = None;
                    }
                    Some(Err(e)) => {
                        err = Some(e);
                        go_on = false;
                    }
                }
            }
            8 => {
                // the rest in lines, like the standard library
                let mut l = Box::pin((&mut r).lines());
                let mut got: Vec<Result<String, bool>> = vec![];
                let mut e = None;
                loop {
                    match run(&mut p, &w, "lines", false, l.next()).unwrap() {
                        None => break,
                        Some(Ok(s)) => got.push(Ok(s)),
                        Some(Err(x)) if x.kind() == ErrorKind::InvalidData => got.push(Err(true)),
                        Some(Err(x)) => {
                            e = Some(x);
                            break;
                        }
                    }
                }
                case.log(|| format!("at {pos}: lines {got:?}"));
                let want: Vec<Result<String, bool>> = BufRead::lines(rest).map(|l| l.map_err(|_| true)).collect();
                if e.is_none() {
                    case.eq(&got, &want, "lines");
                    pos = data.len();
                } else {
                    case.check(got.len() <= want.len() && got[..] == want[..got.len()], || format!("lines {got:?}, want the start of {want:?}"));
                    go_on = false;
                }
                err = e;
                if got.len() > 1 {
                    case.nontrivial();
                }
            }
            _ => {
                let wr = LWrite::new(&w, false, false);
                let st = wr.st.clone();
                let mut wr = Box::pin(wr);
                let x = run(&mut p, &w, "copy_buf", false, fio::copy_buf(&mut r, &mut wr)).unwrap();
                let s = st.lock().unwrap();
                case.check(s.got.len() <= rest.len() && s.got[..] == rest[..s.got.len()], || format!("copy_buf wrote {:?} of {rest:?}", s.got));
                if let Ok(n) = &x {
                    case.eq(*n, rest.len() as u64, "result of copy_buf");
                    case.eq(s.got.len(), rest.len(), "bytes copied");
                    case.check(s.flushed == s.got.len() && s.flushes > 0, || "copy_buf did not flush".into());
                }
                pos += s.got.len();
                err = x.err();
            }
        }
        let now = raised(&c);
        match err {
            Some(e) => {
                case.label("error");
                case.check(is_injected(&e) && now == before + 1, || format!("error {e:?} out of nowhere"));
            }
            None => case.eq(now, before, "errors raised by the reader but not reported"),
        }
        for (st, lim) in &c.leaves {
            let q = st.lock().unwrap().pos;
            case.check(q <= *lim, || format!("read {q} bytes through a limit of {lim}"));
        }
        if !go_on {
            break;
        }
        case.label_if(pos == data.len(), "to_the_end");
    }
    if pos > 1 && c.ops.len() > 1 {
        case.nontrivial();
    }
}

/// Transient errors in the middle of lines.
fn lines_errors(case: &Case) {
    let w = World::new(case);
    let data = text(case, 30, case.chance(1, 6));
    let leaf = LRead::new(&w, "leaf", data.clone(), true);
    let st = leaf.st.clone();
    let mut l = Box::pin(leaf.lines());
    let mut p = Poller::new(case);
    // where the current line starts: its true start, or after the last error in it
    let mut starts = vec![0usize];
    let mut n = 0;
    case.log(|| format!("lines of {:?}", String::from_utf8_lossy(&data)));
    loop {
        let errors = st.lock().unwrap().errors;
        let x = run(&mut p, &w, "lines", false, l.next()).unwrap();
        let (pos, now) = {
            let s = st.lock().unwrap();
            (s.pos, s.errors)
        };
        case.log(|| format!("item {x:?} at {pos}"));
        match x {
            None => {
                case.eq(pos, data.len(), "position at the end of the lines");
                case.eq(now, errors, "errors swallowed");
                break;
            }
            Some(Ok(s)) => {
                case.eq(now, errors, "errors swallowed");
                let ok = starts.iter().any(|a| {
                    let b = &data[*a..pos];
                    let b = b.strip_suffix(b"\n").map_or(b, |b| b.strip_suffix(b"\r").unwrap_or(b));
                    b == s.as_bytes()
                });
                case.check(ok, || {
                    format!("line {s:?}, but the bytes since the last line or error are {:?}", starts.iter().map(|a| String::from_utf8_lossy(&data[*a..pos]).into_owned()).collect::<Vec<_>>())
                });
                let body = &data[..pos];
                case.check(body.last() == Some(&b'\n') || pos == data.len(), || format!("a line ends at {pos}"));
                starts = vec![pos];
                n += 1;
            }
            Some(Err(e)) if e.kind() == ErrorKind::InvalidData => {
                let bad = starts.iter().any(|a| std::str::from_utf8(&data[*a..pos]).is_err());
                case.check(bad, || "a valid line was refused".into());
                case.eq(now, errors, "errors swallowed");
                starts = vec![pos];
            }
            Some(Err(e)) => {
                case.check(is_injected(&e) && now == errors + 1, || format!("error {e:?} out of nowhere"));
                case.label("error");
                starts.truncate(1);
                starts.push(pos);
            }
        }
    }
    if n > 1 && st.lock().unwrap().errors > 0 {
        case.nontrivial();
    }
}

/// Reader errors, writer errors and writers that take nothing, through `copy`.
fn copying(case: &Case) {
    let w = World::new(case);
    let data = bytes(case, 60);
    let (re, we, wz) = (case.chance(1, 4), case.chance(1, 4), case.chance(1, 4));
    let mut rd = Box::pin(LRead::new(&w, "reader", data.clone(), re));
    let rst = rd.st.clone();
    let wr = LWrite::new(&w, we, wz);
    let wst = wr.st.clone();
    let mut wr = Box::pin(wr);
    let mut p = Poller::new(case);
    let kind = case.below(3);
    let res: Result<Result<u64, ()>, io::Error> = match kind {
        0 => run(&mut p, &w, "copy", false, fio::copy(&mut rd, &mut wr)).unwrap().map(Ok),
        1 => run(&mut p, &w, "copy_buf", false, fio::copy_buf(&mut rd, &mut wr)).unwrap().map(Ok),
        _ => {
            let (f, h) = fio::copy_buf_abortable(&mut rd, &mut wr);
            let mut f = Box::pin(f);
            let handles = [h.clone(), h];
            let n = if case.bool() { case.below(12) } else { 1_000_000 };
            p.set_woken();
            match drive_some(&mut p, &w, "copy_buf_abortable", n, |cx| f.as_mut().poll(cx)) {
                Some(x) => x.map(|x| x.map_err(|_| ())),
                None => {
                    handles[case.below(2)].abort();
                    case.log(|| "abort".into());
                    case.check(p.woken(), || "the copying task was not woken by the abort".into());
                    let got = wst.lock().unwrap().got.len();
                    let x = match p.poll(|cx| f.as_mut().poll(cx)) {
                        Poll::Ready(x) => x,
                        Poll::Pending => case.fail("still copying after the abort"),
                    };
                    case.check(matches!(x, Ok(Err(_))), || format!("{x:?} after the abort"));
                    case.eq(wst.lock().unwrap().got.len(), got, "bytes written after the abort");
                    case.label("aborted");
                    case.nontrivial();
                    return;
                }
            }
        }
    };
    case.log(|| format!("copied: {res:?}"));
    let (r, s) = (rst.lock().unwrap(), wst.lock().unwrap());
    case.check(s.got.len() <= data.len() && s.got[..] == data[..s.got.len()], || format!("copied {:?} of {data:?}", s.got));
    if kind != 0 {
        case.eq(r.pos, s.got.len(), "bytes consumed from the reader");
    }
    case.check(!s.closed, || "copying closed the writer".into());
    match res {
        Ok(Ok(n)) => {
            case.eq(n, data.len() as u64, "bytes reported");
            case.eq(s.got.len(), data.len(), "bytes copied");
            case.check(s.flushed == s.got.len() && s.flushes > 0, || "no flush after copying".into());
            case.eq((r.errors, s.errors, s.zeros), (0, 0, 0), "errors not reported");
            if data.len() > 1 {
                case.nontrivial();
            }
        }
        Ok(Err(())) => case.fail("aborted, but nobody did"),
        Err(e) => {
            case.label("error");
            let ok = is_injected(&e) && r.errors + s.errors == 1 && s.zeros == 0 || e.kind() == ErrorKind::WriteZero && s.zeros == 1 && r.errors + s.errors == 0;
            case.check(ok, || format!("error {e:?} with {} reader errors, {} writer errors, {} zero writes", r.errors, s.errors, s.zeros));
            if s.got.len() > 1 {
                case.nontrivial();
            }
        }
    }
}

/// Writing whole buffers; `kind`: how the writer is wrapped.
fn writing(case: &Case) {
    let w = World::new(case);
    let (we, wz) = (case.chance(1, 3), case.chance(1, 3));
    let wr = LWrite::new(&w, we, wz);
    let st = wr.st.clone();
    trait Wr: AsyncWrite + AsyncSeek {}
    impl<T: AsyncWrite + AsyncSeek> Wr for T {}
    let mut out: Pin<Box<dyn Wr>> = match case.below(4) {
        0 => Box::pin(wr),
        1 => Box::pin(Box::new(wr)),
        2 => Box::pin(Box::pin(wr)),
        _ => {
            let b: Box<dyn Wr + Unpin> = Box::new(wr);
            Box::pin(b)
        }
    };
    let mut p = Poller::new(case);
    let mut want: Vec<u8> = vec![];
    let mut seq = 0;
    let mut calls = 0;
    for _ in 0..case.range(1, 8) {
        let (errors, zeros) = {
            let s = st.lock().unwrap();
            (s.errors, s.zeros)
        };
        let mut stop = false;
        let err = match case.weighted(&[4, 4, 2, 2, 1, 1, 2]) {
            0 => {
                let b = chunk(case, &mut seq, false);
                let x = run(&mut p, &w, "write_all", true, out.write_all(&b));
                case.log(|| format!("write_all({b:?}) = {x:?}"));
                whole(case, &st, &mut want, &b, &x);
                calls += 1;
                x.and_then(|x| x.err())
            }
            1 => {
                let b = chunk(case, &mut seq, false);
                let lens = cut(case, b.len());
                let mut at = 0;
                let mut io: Vec<IoSlice<'_>> = lens
                    .iter()
                    .map(|n| {
                        at += n;
                        IoSlice::new(&b[at - n..at])
                    })
                    .collect();
                let x = run(&mut p, &w, "write_all_vectored", true, out.write_all_vectored(&mut io));
                case.log(|| format!("write_all_vectored({lens:?} of {b:?}) = {x:?}"));
                whole(case, &st, &mut want, &b, &x);
                calls += 1;
                x.and_then(|x| x.err())
            }
            k @ (2 | 3) => {
                let b = chunk(case, &mut seq, false);
                let x = if k == 2 {
                    run(&mut p, &w, "write", true, out.write(&b))
                } else {
                    let io = [IoSlice::new(&b[..b.len() / 2]), IoSlice::new(&b[b.len() / 2..])];
                    run(&mut p, &w, "write_vectored", true, out.write_vectored(&io))
                };
                if let Some(Ok(n)) = &x {
                    want.extend_from_slice(&b[..*n]);
                }
                // a writer may take nothing here
                let z = st.lock().unwrap().zeros;
                if z > zeros {
                    case.check(matches!(x, Some(Ok(0))), || format!("write gave {x:?}, the writer 0"));
                    continue;
                }
                x.and_then(|x| x.err())
            }
            4 => {
                let x = run(&mut p, &w, "flush", true, out.flush());
                if let Some(Ok(())) = x {
                    let s = st.lock().unwrap();
                    case.eq(s.flushed, s.got.len(), "flushed bytes");
                }
                x.and_then(|x| x.err())
            }
            5 => {
                let x = run(&mut p, &w, "close", true, out.close());
                if let Some(Ok(())) = x {
                    case.check(st.lock().unwrap().closed, || "close did not reach the writer".into());
                    stop = true;
                }
                x.and_then(|x| x.err())
            }
            _ => {
                let x = run(&mut p, &w, "stream_position", true, out.stream_position());
                if let Some(Ok(n)) = x {
                    case.eq(n, st.lock().unwrap().pos as u64, "stream_position");
                }
                x.and_then(|x| x.err())
            }
        };
        let s = st.lock().unwrap();
        match err {
            Some(e) => {
                case.label("error");
                case.check(
                    is_injected(&e) && s.errors == errors + 1 && s.zeros == zeros || e.kind() == ErrorKind::WriteZero && s.zeros == zeros + 1 && s.errors == errors,
                    || format!("error {e:?} out of nowhere"),
                );
            }
            None => case.eq((s.errors, s.zeros), (errors, zeros), "failures not reported"),
        }
        case.check(s.got == want, || format!("written {:?}, want {want:?}", s.got));
        if stop {
            break;
        }
    }
    if calls > 0 && want.len() > 1 {
        case.nontrivial();
    }
}

fn whole(case: &Case, st: &Mutex<vh::iol::WSt>, want: &mut Vec<u8>, b: &[u8], x: &Option<io::Result<()>>) {
    let s = st.lock().unwrap();
    let n = s.got.len() - want.len().min(s.got.len());
    case.check(n <= b.len(), || format!("{n} bytes written out of {}", b.len()));
    want.extend_from_slice(&b[..n]);
    if let Some(Ok(())) = x {
        case.eq(n, b.len(), "bytes written by a successful write_all");
    }
}

/// A blocking object that is interrupted now and then.
struct Std {
    case: Case,
    inner: io::Cursor<Vec<u8>>,
    interrupts: usize,
    hard: usize,
    raised: Arc<Mutex<(usize, usize)>>,
}

impl Std {
    fn fail(&mut self) -> io::Result<()> {
        if self.case.chance(self.interrupts, 8) {
            self.raised.lock().unwrap().0 += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        if self.case.chance(self.hard, 8) {
            let mut g = self.raised.lock().unwrap();
            g.1 += 1;
            return Err(vh::iol::injected(g.1));
        }
        Ok(())
    }
}
impl Read for Std {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.fail()?;
        self.inner.read(b)
    }
    fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        self.fail()?;
        self.inner.read_vectored(b)
    }
}
impl BufRead for Std {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.fail()?;
        self.inner.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.inner.consume(n)
    }
}
impl Write for Std {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.fail()?;
        self.inner.write(b)
    }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> {
        self.fail()?;
        self.inner.write_vectored(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.fail()
    }
}
impl Seek for Std {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.fail()?;
        self.inner.seek(to)
    }
}

trait AllAsync: AsyncBufRead + AsyncWrite + AsyncSeek {}
impl<T: AsyncBufRead + AsyncWrite + AsyncSeek> AllAsync for T {}
trait AllStd: BufRead + Write + Seek {}
impl<T: BufRead + Write + Seek> AllStd for T {}

/// In-memory objects and the adaptor for blocking objects, against the
/// standard library's.
fn std_like(case: &Case) {
    let data = bytes(case, 20);
    let raised: Arc<Mutex<(usize, usize)>> = Default::default();
    let p = &mut Poller::new(case);
    let w = &World::new(case);
    let kind = case.below(5);
    case.log(|| format!("kind {kind} over {} bytes", data.len()));
    let mut d1 = data.clone();
    let mut d2 = data.clone();
    let (mut a, mut b): (Pin<Box<dyn AllAsync + '_>>, Box<dyn AllStd + '_>) = match kind {
        0 => (Box::pin(Cursor::new(data.clone())), Box::new(io::Cursor::new(data.clone()))),
        1 => (Box::pin(Cursor::new(&mut d1)), Box::new(io::Cursor::new(&mut d2))),
        2 => (Box::pin(Cursor::new(&mut d1[..])), Box::new(io::Cursor::new(&mut d2[..]))),
        3 => (Box::pin(Cursor::new(data.clone().into_boxed_slice())), Box::new(io::Cursor::new(data.clone().into_boxed_slice()))),
        _ => {
            let s = Std { case: case.clone(), inner: io::Cursor::new(data.clone()), interrupts: 2, hard: case.below(2), raised: raised.clone() };
            (Box::pin(AllowStdIo::new(s)), Box::new(io::Cursor::new(data.clone())))
        }
    };
    let mut seq = 100u8;
    let mut n_ops = 0;
    for _ in 0..case.range(1, 12) {
        let before = *raised.lock().unwrap();
        macro_rules! both {
            ($what:literal, $a:expr, $b:expr) => {{
                let x = run(p, w, $what, false, $a).unwrap();
                let e = x.as_ref().err().map(|e| (e.kind(), is_injected(e)));
                case.log(|| format!("{}: {x:?}", $what));
                let hard = raised.lock().unwrap().1 - before.1;
                if hard > 0 {
                    case.check(hard == 1 && e.map_or(false, |e| e.1), || format!("{} gave {x:?} when the object failed", $what));
                    continue;
                }
                let y = $b;
                let f = y.as_ref().err().map(|e| e.kind());
                case.eq(e.map(|e| e.0), f, concat!("error of ", $what));
                if let (Ok(x), Ok(y)) = (&x, &y) {
                    case.eq(x, y, concat!("result of ", $what));
                }
                n_ops += 1;
            }};
        }
        match case.below(9) {
            0 => {
                let n = case.below(8);
                let (mut u, mut v) = (vec![0; n], vec![0; n]);
                both!("read", a.read(&mut u), b.read(&mut v));
                case.eq(u, v, "bytes read");
            }
            1 => {
                let n = case.below(8);
                let (mut u, mut v) = ([vec![0; n], vec![0; 3]], [vec![0; n], vec![0; 3]]);
                {
                    let [u0, u1] = &mut u;
                    let [v0, v1] = &mut v;
                    let mut ui = [IoSliceMut::new(u0), IoSliceMut::new(u1)];
                    let mut vi = [IoSliceMut::new(v0), IoSliceMut::new(v1)];
                    both!("read_vectored", a.read_vectored(&mut ui), b.read_vectored(&mut vi));
                }
                case.eq(u, v, "bytes read");
            }
            2 => {
                let k = case.below(8);
                let mut n = 0;
                both!(
                    "fill_buf",
                    async {
                        let r = a.fill_buf().await.map(|b| b.to_vec());
                        n = r.as_ref().map_or(0, |b| b.len());
                        r
                    },
                    b.fill_buf().map(|b| b.to_vec())
                );
                let k = k.min(n);
                a.as_mut().consume(k);
                b.consume(k);
            }
            3 | 4 => {
                let c = chunk(case, &mut seq, false);
                both!("write", a.write(&c), b.write(&c));
            }
            5 => {
                let c = chunk(case, &mut seq, false);
                let io = [IoSlice::new(&c[..c.len() / 2]), IoSlice::new(&c[c.len() / 2..])];
                both!("write_vectored", a.write_vectored(&io), b.write_vectored(&io));
            }
            6 => both!("flush", a.flush(), b.flush()),
            7 => {
                let to = gen_seek(case, data.len());
                // a vector grows up to the position of a write
                if matches!(to, SeekFrom::Start(n) if n > 100) || matches!(to, SeekFrom::Current(n) if n > 100) {
                    continue;
                }
                both!("seek", a.seek(to), b.seek(to));
            }
            _ => both!("close", a.close(), b.flush()),
        }
    }
    // what is left in both
    let mut all = vec![];
    let mut tries = 0;
    loop {
        let e0 = raised.lock().unwrap().1;
        match run(p, w, "rewind", false, a.seek(SeekFrom::Start(0))).unwrap() {
            Ok(_) => break,
            Err(e) => case.check(raised.lock().unwrap().1 > e0, || format!("seek failed: {e}")),
        }
        tries += 1;
        case.check(tries < 1000, || "seek keeps failing".into());
    }
    while run(p, w, "read_to_end", false, a.read_to_end(&mut all)).unwrap().is_err() {}
    let mut all2 = vec![];
    b.seek(SeekFrom::Start(0)).unwrap();
    b.read_to_end(&mut all2).unwrap();
    case.eq(all, all2, "contents");
    case.label_if(raised.lock().unwrap().0 > 0, "interrupted");
    if n_ops > 2 {
        case.nontrivial();
    }
}

/// The adaptor for blocking objects used as a blocking object, against the object.
fn blocking(case: &Case) {
    let data: Vec<u8> = bytes(case, 20).iter().map(|b| b % 128).collect();
    let mut a = AllowStdIo::new(io::Cursor::new(data.clone()));
    let mut b = io::Cursor::new(data.clone());
    let mut seq = 50u8;
    for _ in 0..case.range(1, 10) {
        macro_rules! both {
            ($what:literal, |$o:ident| $e:expr) => {{
                let x = {
                    let $o = &mut a;
                    $e
                };
                let y = {
                    let $o = &mut b;
                    $e
                };
                case.log(|| format!("{}: {x:?}", $what));
                case.eq(x.map_err(|e| e.kind()), y.map_err(|e| e.kind()), concat!("result of ", $what));
                case.nontrivial();
            }};
        }
        let n = case.below(8);
        let c = chunk(case, &mut seq, false);
        let c: Vec<u8> = c.iter().map(|b| b % 128).collect();
        match case.below(14) {
            0 => both!("read", |o| {
                let mut v = vec![0; n];
                Read::read(o, &mut v).map(|k| (k, v))
            }),
            1 => both!("read_vectored", |o| {
                let (mut u, mut v) = (vec![0; n], vec![0; 3]);
                Read::read_vectored(o, &mut [IoSliceMut::new(&mut u), IoSliceMut::new(&mut v)]).map(|k| (k, u, v))
            }),
            2 => both!("read_to_end", |o| {
                let mut v = vec![1];
                Read::read_to_end(o, &mut v).map(|k| (k, v))
            }),
            3 => both!("read_to_string", |o| {
                let mut v = String::from("x");
                Read::read_to_string(o, &mut v).map(|k| (k, v))
            }),
            4 => both!("read_exact", |o| {
                let mut v = vec![0; n];
                Read::read_exact(o, &mut v).map(|()| v)
            }),
            5 => both!("write", |o| Write::write(o, &c)),
            6 => both!("write_vectored", |o| Write::write_vectored(o, &[IoSlice::new(&c[..c.len() / 2]), IoSlice::new(&c[c.len() / 2..])])),
            7 => both!("write_all", |o| Write::write_all(o, &c)),
            8 => both!("write_fmt", |o| Write::write_fmt(o, format_args!("{}-{:?}", n, c))),
            9 => both!("flush", |o| Write::flush(o)),
            10 => {
                let to = gen_seek(case, data.len());
                if matches!(to, SeekFrom::Start(n) if n > 100) || matches!(to, SeekFrom::Current(n) if n > 100) {
                    continue;
                }
                both!("seek", |o| Seek::seek(o, to))
            }
            11 => both!("fill_buf", |o| {
                let r = BufRead::fill_buf(o).map(|b| b.to_vec());
                if let Ok(v) = &r {
                    let k = n.min(v.len());
                    BufRead::consume(o, k);
                }
                r
            }),
            12 => case.eq(a.get_ref(), &b, "get_ref"),
            _ => {
                a.get_mut().set_position(n as u64);
                b.set_position(n as u64);
            }
        }
    }
    case.eq(a.into_inner(), b, "the inner object");
}

/// The accessors of `Cursor`, between asynchronous operations.
fn cursor(case: &Case) {
    let p = &mut Poller::new(case);
    let w = &World::new(case);
    let data = bytes(case, 20);
    let mut a = Cursor::new(data.clone());
    let mut b = io::Cursor::new(data.clone());
    let mut seq = 70u8;
    for _ in 0..case.range(1, 8) {
        match case.below(6) {
            0 => {
                let to = case.below(data.len() + 4) as u64;
                a.set_position(to);
                b.set_position(to);
            }
            1 => {
                let c = chunk(case, &mut seq, false);
                if c.is_empty() {
                    continue; // whether that pads up to the position is not specified
                }
                let x = run(p, w, "write_all", false, a.write_all(&c)).unwrap();
                case.eq(x.is_ok(), b.write_all(&c).is_ok(), "write_all");
            }
            2 => {
                let mut u = vec![0; case.below(6)];
                let mut v = u.clone();
                let x = run(p, w, "read", false, AsyncReadExt::read(&mut a, &mut u)).unwrap().unwrap();
                case.eq((x, u), (b.read(&mut v).unwrap(), v), "read");
            }
            3 => {
                let c = case.byte();
                a.get_mut().push(c);
                b.get_mut().push(c);
            }
            4 => {
                let mut u = vec![0; case.below(6)];
                let mut v = u.clone();
                let x = run(p, w, "read_exact", false, AsyncReadExt::read_exact(&mut a, &mut u)).unwrap();
                case.eq(x.is_ok(), b.read_exact(&mut v).is_ok(), "read_exact");
                // where it stands after a failed one is not specified
                b.set_position(a.position().max(b.position()).min(b.get_ref().len() as u64));
                let at = b.position();
                a.set_position(at);
            }
            _ => {
                let mut u = vec![];
                let k = run(p, w, "read_to_end", false, AsyncReadExt::read_to_end(&mut a, &mut u)).unwrap().unwrap();
                let mut v = vec![];
                case.eq((k, u), (b.read_to_end(&mut v).unwrap(), v), "read_to_end");
            }
        }
        case.eq(a.position(), b.position(), "position");
        case.eq(a.get_ref(), b.get_ref(), "get_ref");
        case.nontrivial();
    }
    case.eq(a.into_inner(), b.into_inner(), "contents");
}

/// The small objects: slices, vectors, repeat, sink, windows, positions.
fn small(case: &Case) {
    let p = &mut Poller::new(case);
    let w = &World::new(case);
    match case.below(7) {
        5 => blocking(case),
        6 => cursor(case),
        0 => {
            let byte = case.byte();
            let mut r = fio::repeat(byte);
            for _ in 0..3 {
                let n = case.below(20);
                let mut b = vec![byte.wrapping_add(1); n];
                case.eq(run(p, w, "repeat", false, r.read(&mut b)).unwrap().unwrap(), n, "repeat");
                case.check(b.iter().all(|x| *x == byte), || format!("repeat gave {b:?}"));
                let (mut x, mut y) = (vec![0; n], vec![0; 2]);
                let k = {
                    let mut io = [IoSliceMut::new(&mut x), IoSliceMut::new(&mut y)];
                    run(p, w, "repeat", false, r.read_vectored(&mut io)).unwrap().unwrap()
                };
                let all = [x, y].concat();
                case.check(k <= all.len() && (k > 0) && all[..k].iter().all(|x| *x == byte), || format!("repeat gave {k}: {all:?}"));
            }
            case.nontrivial();
        }
        1 => {
            let mut s = fio::sink();
            let n = case.below(50);
            case.eq(run(p, w, "sink", false, s.write(&vec![1; n])).unwrap().unwrap(), n, "sink");
            let io = [IoSlice::new(&[1, 2]), IoSlice::new(&[3])];
            case.eq(run(p, w, "sink", false, s.write_vectored(&io)).unwrap().unwrap(), 3, "sink");
            run(p, w, "sink", false, s.flush()).unwrap().unwrap();
            run(p, w, "sink", false, s.close()).unwrap().unwrap();
            let mut e = fio::empty();
            let mut b = [7; 3];
            case.eq(run(p, w, "empty", false, e.read(&mut b)).unwrap().unwrap(), 0, "empty");
            case.eq(b, [7; 3], "empty");
            case.check(run(p, w, "empty", false, e.fill_buf()).unwrap().unwrap().is_empty(), || "empty is not".into());
            e.consume_unpin(0);
        }
        2 => {
            let data = bytes(case, 20);
            let mut win = Window::new(data.clone());
            case.eq(win.as_ref(), &data[..], "a new window");
            for _ in 0..case.range(1, 5) {
                let a = case.below(data.len() + 1);
                let b = case.range(a, data.len());
                match case.below(5) {
                    4 => {
                        if a < b {
                            use std::ops::Bound::*;
                            win.set((Excluded(a), Excluded(b)));
                            case.eq(win.as_ref(), &data[a + 1..b], "window");
                        }
                    }
                    0 => {
                        win.set(a..b);
                        case.eq(win.as_ref(), &data[a..b], "window");
                        case.eq((win.start(), win.end()), (a, b), "window bounds");
                        case.eq(win.as_mut(), &data[a..b], "window");
                    }
                    1 => {
                        win.set(a..);
                        case.eq(win.as_ref(), &data[a..], "window");
                    }
                    2 => {
                        win.set(..b);
                        case.eq(win.as_ref(), &data[..b], "window");
                    }
                    _ => {
                        if b < data.len() {
                            win.set(a..=b);
                            case.eq(win.as_ref(), &data[a..=b], "window");
                        }
                        let len = data.len();
                        let keep = (win.start(), win.end());
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| win.set(a..len + 1)));
                        case.check(r.is_err(), || "a window past the end was accepted".into());
                        case.eq((win.start(), win.end()), keep, "window bounds after a refused change");
                    }
                }
            }
            case.eq(win.get_ref(), &data, "the inner value");
            let keep = (win.start(), win.end());
            if !data.is_empty() {
                let i = case.below(data.len());
                let v = case.byte();
                win.get_mut()[i] = v;
                let mut data = data.clone();
                data[i] = v;
                case.eq(win.as_ref(), &data[keep.0..keep.1], "window after a change of the inner value");
                win.get_mut()[i] = 0;
            }
            let mut inner = win.into_inner();
            case.eq(inner.len(), data.len(), "the inner value");
            inner.iter_mut().zip(&data).for_each(|(a, b)| if *a == 0 { *a = *b });
            case.eq(inner, data, "the inner value");
            case.nontrivial();
        }
        3 => {
            // take: the limit counts down, can be changed, and a reached limit does not touch the reader
            let data = bytes(case, 20);
            let leaf = LRead::new(w, "leaf", data.clone(), false);
            let st = leaf.st.clone();
            let mut lim = case.below(12);
            let mut t = Box::pin(leaf.take(lim as u64));
            let mut pos = 0;
            for _ in 0..case.range(1, 10) {
                if case.chance(1, 5) {
                    lim = case.below(8);
                    // unpinned access
                    t.as_mut().get_mut().set_limit(lim as u64);
                    case.log(|| format!("set_limit({lim})"));
                }
                let touched = || {
                    let s = st.lock().unwrap();
                    s.reads + s.eofs
                };
                let reads = touched();
                let rest = &data[pos..];
                let n;
                if case.bool() {
                    let k = case.below(8);
                    let mut b = vec![0; k];
                    n = run(p, w, "read", false, t.read(&mut b)).unwrap().unwrap();
                    case.check(n <= lim.min(k) && n <= rest.len() && b[..n] == rest[..n], || format!("read({k}) with limit {lim} gave {n}: {b:?}"));
                    case.check(n > 0 || k == 0 || lim == 0 || rest.is_empty(), || "read nothing".into());
                } else {
                    let b = run(p, w, "fill_buf", false, t.fill_buf()).unwrap().unwrap().to_vec();
                    case.check(b.len() <= lim && b.len() <= rest.len() && b[..] == rest[..b.len()], || format!("fill_buf with limit {lim} gave {b:?}"));
                    case.check(!b.is_empty() || lim == 0 || rest.is_empty(), || "fill_buf gave nothing".into());
                    n = case.below(b.len() + 1);
                    t.as_mut().consume(n);
                }
                if lim == 0 {
                    case.check(touched() == reads, || "the reader was touched at the limit".into());
                }
                pos += n;
                lim -= n;
                case.eq(t.limit(), lim as u64, "limit");
                case.eq(st.lock().unwrap().pos, pos, "position of the reader");
            }
            if pos > 0 {
                case.nontrivial();
            }
        }
        _ => {
            let mut v: Vec<u8> = vec![9];
            let mut want = vec![9];
            let mut seq = 0;
            for _ in 0..case.range(1, 4) {
                let c = chunk(case, &mut seq, false);
                if case.bool() {
                    run(p, w, "write_all", false, AsyncWriteExt::write_all(&mut v, &c)).unwrap().unwrap();
                } else {
                    let mut io = [IoSlice::new(&c[..c.len() / 2]), IoSlice::new(&c[c.len() / 2..])];
                    run(p, w, "write_all_vectored", false, AsyncWriteExt::write_all_vectored(&mut v, &mut io)).unwrap().unwrap();
                }
                want.extend_from_slice(&c);
            }
            run(p, w, "close", false, AsyncWriteExt::close(&mut v)).unwrap().unwrap();
            case.eq(&v, &want, "a vector written to");
            let mut s = &want[..];
            let mut back = vec![];
            case.eq(run(p, w, "read_to_end", false, AsyncReadExt::read_to_end(&mut s, &mut back)).unwrap().unwrap(), want.len(), "bytes read");
            case.eq(back, want.clone(), "a slice read back");
            case.nontrivial();
        }
    }
}

// ---------------------------------------------------------------- C26

/// A stream of chunks read as bytes; an error ends it.
fn into_read(case: &Case) {
    let w = World::new(case);
    let mut seq = 0u8;
    let mut script = VecDeque::new();
    let mut data = vec![];
    let mut error = None;
    for i in 0..case.len(8) {
        while case.chance(1, 4) {
            script.push_back(SStep::Gate(vh::leaf::Gate::gen(&w)));
        }
        if case.chance(1, 8) {
            script.push_back(SStep::Item(Err(vh::iol::injected(i))));
            if error.is_none() {
                error = Some((data.len(), format!("injected {i}")));
            }
        } else {
            let c: Vec<u8> = (0..case.below(7))
                .map(|_| {
                    seq = seq.wrapping_add(1);
                    seq
                })
                .collect();
            if error.is_none() {
                data.extend_from_slice(&c);
            }
            script.push_back(SStep::Item(Ok(c)));
        }
    }
    let s: LStream<io::Result<Vec<u8>>> = LStream::new(&w, "chunks", script);
    let mut r = Box::pin(s.into_async_read());
    let mut p = Poller::new(case);
    let mut pos = 0;
    let mut reported = false;
    for _ in 0..60 {
        let rest = &data[pos..];
        let e = match case.below(3) {
            0 => {
                let n = case.below(9);
                let mut b = vec![0; n];
                let Some(x) = run(&mut p, &w, "read", true, r.read(&mut b)) else { continue };
                case.log(|| format!("at {pos}: read({n}) = {x:?}"));
                if let Ok(k) = x {
                    case.check(k <= n && k <= rest.len() && b[..k] == rest[..k], || format!("read({n}) at {pos}: {b:?}"));
                    case.check(k > 0 || n == 0 || rest.is_empty() && (error.is_none() || reported), || format!("read({n}) = 0 at {pos} of {}", data.len()));
                    pos += k;
                }
                x.err()
            }
            1 => {
                let x = match run(&mut p, &w, "fill_buf", true, r.fill_buf()) {
                    None => continue,
                    Some(x) => x.map(|b| b.to_vec()),
                };
                case.log(|| format!("at {pos}: fill_buf = {x:?}"));
                if let Ok(b) = &x {
                    case.check(b.len() <= rest.len() && b[..] == rest[..b.len()], || format!("fill_buf at {pos}: {b:?}"));
                    case.check(!b.is_empty() || rest.is_empty() && (error.is_none() || reported), || format!("fill_buf is empty at {pos} of {}", data.len()));
                    let k = case.below(b.len() + 1);
                    r.as_mut().consume(k);
                    pos += k;
                }
                x.err()
            }
            _ => {
                let mut b = vec![];
                let x = run(&mut p, &w, "read_to_end", true, r.read_to_end(&mut b));
                case.log(|| format!("at {pos}: read_to_end = {x:?} {b:?}"));
                case.check(b.len() <= rest.len() && b[..] == rest[..b.len()], || format!("read_to_end at {pos}: {b:?}"));
                if let Some(Ok(_)) = x {
                    case.check(b.len() == rest.len() && (error.is_none() || reported), || format!("read_to_end at {pos} stopped early: {b:?}"));
                }
                pos += b.len();
                x.and_then(|x| x.err())
            }
        };
        if let Some(e) = e {
            case.label("error");
            case.check(!reported && error.as_ref().map_or(false, |x| x.0 == pos && x.1 == e.to_string()), || format!("error {e} at {pos}, expected {error:?}"));
            reported = true;
        }
    }
    if data.len() > 1 {
        case.nontrivial();
    }
}

/// A writer used as a sink of byte blocks.
fn into_sink(case: &Case) {
    let w = World::new(case);
    let (we, wz) = (case.chance(1, 3), case.chance(1, 3));
    let wr = LWrite::new(&w, we, wz);
    let st = wr.st.clone();
    let mut s = Box::pin(wr.into_sink::<Vec<u8>>());
    let mut p = Poller::new(case);
    let mut sent: Vec<u8> = vec![];
    let mut seq = 0;
    let mut n_sent = 0;
    for _ in 0..case.range(1, 10) {
        let (errors, zeros) = {
            let s = st.lock().unwrap();
            (s.errors, s.zeros)
        };
        let mut stop = false;
        let err = match case.weighted(&[6, 2, 1]) {
            0 => {
                // readiness, then an item
                p.set_woken();
                let r = drive(&mut p, &w, "poll_ready", |cx| s.as_mut().poll_ready(cx));
                match r {
                    Ok(()) => {
                        let c = chunk(case, &mut seq, false);
                        sent.extend_from_slice(&c);
                        n_sent += 1;
                        case.log(|| format!("send {c:?}"));
                        s.as_mut().start_send(c).err()
                    }
                    Err(e) => Some(e),
                }
            }
            1 => {
                let Some(r) = run(&mut p, &w, "flush", true, s.flush()) else { continue };
                case.log(|| format!("flush = {r:?}"));
                if r.is_ok() {
                    let g = st.lock().unwrap();
                    case.check(g.got == sent, || format!("after a flush: got {:?}, sent {sent:?}", g.got));
                    case.eq(g.flushed, g.got.len(), "bytes flushed");
                }
                r.err()
            }
            _ => {
                let Some(r) = run(&mut p, &w, "close", true, s.close()) else { continue };
                case.log(|| format!("close = {r:?}"));
                if r.is_ok() {
                    let g = st.lock().unwrap();
                    case.check(g.got == sent, || format!("after close: got {:?}, sent {sent:?}", g.got));
                    case.check(g.closed, || "close did not reach the writer".into());
                    stop = true;
                }
                r.err()
            }
        };
        let g = st.lock().unwrap();
        case.check(g.got.len() <= sent.len() && g.got[..] == sent[..g.got.len()], || format!("got {:?}, sent {sent:?}", g.got));
        match err {
            Some(e) => {
                case.label("error");
                case.check(
                    is_injected(&e) && g.errors == errors + 1 || e.kind() == ErrorKind::WriteZero && g.zeros > zeros,
                    || format!("error {e:?} out of nowhere"),
                );
            }
            None => case.eq((g.errors, g.zeros), (errors, zeros), "failures not reported"),
        }
        if stop {
            break;
        }
    }
    if n_sent > 1 && sent.len() > 2 {
        case.nontrivial();
    }
}

/// A stream of blocks forwarded into a writer, and read back: nothing changes.
fn roundtrip(case: &Case) {
    let w = World::new(case);
    let (s, data) = chunks(case, &w, false);
    let wr = LWrite::new(&w, false, false);
    let st = wr.st.clone();
    let mut p = Poller::new(case);
    let cap = *case.pick(&CAPS);
    let sink = BufWriter::with_capacity(cap, wr).into_sink();
    run(&mut p, &w, "forward", false, s.map(|c| c.unwrap()).forward(sink)).unwrap().unwrap_or_else(|e| case.fail(format!("forward failed: {e}")));
    let g = st.lock().unwrap();
    case.check(g.got == data, || format!("forwarded {:?}, want {data:?}", g.got));
    case.check(g.closed, || "forward did not close the sink".into());
    if data.len() > 1 {
        case.nontrivial();
    }
}

/// An abortable copy whose handle is used from other threads.
struct TIo {
    evs: Evs,
    /// (events needed, bytes): what the reader gives or the writer takes.
    script: VecDeque<(usize, Vec<u8>)>,
    flush: usize,
    out: Arc<Mutex<(Vec<u8>, bool)>>,
    /// Set once an abort has returned and the next poll has begun.
    forbidden: Arc<AtomicBool>,
    case: Case,
}

impl TIo {
    fn used(&self) {
        self.case.check(!self.forbidden.load(Relaxed), || "used although the copy had been aborted".into());
    }
}

impl AsyncRead for TIo {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<io::Result<usize>> {
        unreachable!()
    }
}

impl AsyncBufRead for TIo {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = self.get_mut();
        this.used();
        match this.script.front() {
            None => Poll::Ready(Ok(&[])),
            Some((n, b)) => match this.evs.poll(*n, cx) {
                Poll::Ready(()) => Poll::Ready(Ok(b)),
                Poll::Pending => Poll::Pending,
            },
        }
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) {
        let f = &mut self.script.front_mut().unwrap().1;
        f.drain(..n);
        if f.is_empty() {
            self.script.pop_front();
        }
    }
}

impl AsyncWrite for TIo {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let this = self.get_mut();
        this.used();
        let need = this.script.front().map_or(0, |s| s.0);
        if this.evs.poll(need, cx).is_pending() {
            return Poll::Pending;
        }
        let n = this.script.pop_front().map_or(usize::MAX, |s| s.1.len()).min(b.len());
        this.out.lock().unwrap().0.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.used();
        if self.evs.poll(self.flush, cx).is_pending() {
            return Poll::Pending;
        }
        self.out.lock().unwrap().1 = true;
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        unreachable!()
    }
}

fn abort_threads(case: &Case) {
    let evs = Evs::new();
    let fires = case.range(0, 2);
    let aborts = case.range(0, 2);
    let most = if aborts > 0 { 3 } else { fires };
    let forbidden = Arc::new(AtomicBool::new(false));
    let out: Arc<Mutex<(Vec<u8>, bool)>> = Default::default();
    let mut gen = || {
        let mut v = 0;
        let script: VecDeque<(usize, Vec<u8>)> = (0..case.below(3))
            .map(|_| {
                let n = case.range(1, 3);
                (case.range(0, most), (0..n).map(|_| { v += 1; v }).collect())
            })
            .collect();
        TIo { evs: evs.clone(), script, flush: case.range(0, most), out: out.clone(), forbidden: forbidden.clone(), case: case.clone() }
    };
    let (rd, mut wr) = (gen(), gen());
    let data: Vec<u8> = rd.script.iter().flat_map(|s| s.1.clone()).collect();
    let slot: Arc<Mutex<Vec<future::AbortHandle>>> = Default::default();
    let called = Arc::new(AtomicBool::new(false));
    let returned = Arc::new(AtomicBool::new(false));
    let mut bodies: Vec<(String, Body)> = vec![];
    {
        let (slot, called, returned) = (slot.clone(), called.clone(), returned.clone());
        bodies.push((
            "copy".into(),
            body(move |th| {
                let (f, h) = fio::copy_buf_abortable(rd, &mut wr);
                *slot.lock().unwrap() = vec![h.clone(), h];
                let mut f = Box::pin(f);
                let r = th.block_on_fn(|cx| {
                    if returned.load(Relaxed) {
                        forbidden.store(true, Relaxed);
                    }
                    f.as_mut().poll(cx)
                });
                drop(f);
                th.log(|| format!("copy -> {r:?}"));
                let o = out.lock().unwrap();
                match r {
                    Ok(Ok(n)) => th.check(n as usize == data.len() && o.0 == data && o.1, || format!("{n} copied: {o:?} of {data:?}")),
                    Ok(Err(_)) => {
                        th.check(cfg!(miri) || called.load(Relaxed), || "aborted although nobody called abort".into());
                        th.check(data.starts_with(&o.0), || format!("copied {o:?} of {data:?}"));
                        th.label("aborted");
                    }
                    Err(e) => th.check(false, || format!("error {e} out of nowhere")),
                }
            }),
        ));
    }
    for i in 0..aborts {
        let (slot, called, returned) = (slot.clone(), called.clone(), returned.clone());
        bodies.push((
            format!("abort{i}"),
            body(move |th| {
                let h = loop {
                    if let Some(h) = slot.lock().unwrap().pop() {
                        break h;
                    }
                    th.pause();
                };
                for _ in 0..th.below(4) {
                    th.point();
                }
                called.store(true, Relaxed);
                h.abort();
                if !cfg!(miri) {
                    returned.store(true, Relaxed);
                }
            }),
        ));
    }
    let e2 = evs.clone();
    bodies.push((
        "events".into(),
        body(move |th| {
            for _ in 0..fires {
                th.point();
                e2.fire();
            }
        }),
    ));
    par::run(case, bodies);
    evs.0.lock().unwrap().1.clear();
    if aborts > 0 {
        case.nontrivial();
    }
}

fn main() {
    main_for(vec![
        Prop {
            id: "C22",
            rule: "a case is a sequence of reads, vectored reads, peeks, seeks and relative seeks on a buffered reader over a scripted reader (short reads, waits, errors, given-up operations); non-trivial: bytes were read, and a seek took place or more than the buffer was read",
            subs: vec![sub("buf_reader", buf_reader, 7_200_000, 90_000_000).miri(60, 600)],
        },
        Prop {
            id: "C23",
            rule: "a case is a sequence of writes, vectored writes, flushes, seeks and closes on a buffered or line-buffered writer over a scripted writer (short writes, zero writes, waits, errors, given-up operations); non-trivial: more than the buffer was accepted, or bytes were flushed (seeks: a seek after writing)",
            subs: vec![
                sub("buf_writer", buf_writer, 6_000_000, 60_000_000).miri(40, 400),
                sub("line_writer", line_writer, 1_440_000, 60_000_000).miri(40, 400),
                sub("buf_writer_seek", buf_writer_seek, 1_440_000, 30_000_000),
            ],
        },
        Prop {
            id: "C24",
            rule: "a case is a sequence of helper operations on a generated composition of readers (or a scripted writer, or an in-memory object next to the standard library's); non-trivial: at least two bytes went through a composed reader or writer, or several lines were read, or three operations were compared; abort_threads: an abortable copy on one controlled thread, aborted from 1-2 others",
            subs: vec![
                sub("readers", readers, 4_320_000, 60_000_000).miri(50, 500),
                sub("lines_errors", lines_errors, 2_400_000, 24_000_000).miri(20, 200),
                sub("copying", copying, 3_000_000, 30_000_000),
                sub("writing", writing, 3_000_000, 30_000_000),
                sub("std_like", std_like, 3_000_000, 30_000_000).miri(20, 200),
                sub("abort_threads", abort_threads, 60_000, 1_000_000).miri(32, 600),
                sub("small", small, 1_800_000, 18_000_000),
            ],
        },
        Prop {
            id: "C26",
            rule: "a case is a generated stream of byte blocks (with waits, empty blocks and errors) read as bytes, or a sequence of blocks sent, flushed and closed into a scripted writer used as a sink, or a stream forwarded into one; non-trivial: at least two bytes went through",
            subs: vec![
                sub("into_read", into_read, 1_440_000, 30_000_000).miri(20, 200),
                sub("into_sink", into_sink, 3_600_000, 36_000_000),
                sub("roundtrip", roundtrip, 1_800_000, 18_000_000),
            ],
        },
    ]);
}
