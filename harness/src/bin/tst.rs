//! The wrappers, wakers, spawners and assertions of futures-test: they change
//! exactly what they say and pass everything else on.
use futures::future::{FusedFuture, Future};
use futures::sink::Sink;
use futures::stream::{FusedStream, Stream, StreamExt};
use futures_io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite, IoSlice, IoSliceMut, SeekFrom};
use futures_test::future::FutureTestExt;
use futures_test::io::{AsyncReadTestExt, AsyncWriteTestExt};
use futures_test::sink::SinkTestExt;
use futures_test::task as tt;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use vh::case::{Case, Failed, Inconclusive, Tok};
use vh::runner::{main_for, sub, Prop};
use vh::sim::Poller;

// -------------------------------------------------------- the wrapped object

/// The calls with their results, and the bytes handed out.
#[derive(Clone, Default)]
struct Log(Arc<Mutex<Vec<(String, String)>>>, Arc<Mutex<Vec<u8>>>);

/// Implements every trait; each answer is a choice of the case.
struct Obj {
    case: Case,
    log: Log,
    /// The waker of the call going on.
    outer: Arc<Mutex<Option<Waker>>>,
    buf: Vec<u8>,
    ended: bool,
    _tok: Tok,
    _pin: std::marker::PhantomPinned,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Poll,
    Next,
    Ready,
    Start,
    Flush,
    Close,
    Read,
    ReadV,
    Write,
    WriteV,
    IoFlush,
    IoClose,
    Seek,
    Fill,
    Consume,
}

impl Obj {
    fn new(case: &Case) -> (Self, Log, Arc<Mutex<Option<Waker>>>) {
        let (log, outer) = (Log::default(), Arc::new(Mutex::new(None)));
        let o = Obj {
            case: case.clone(),
            log: log.clone(),
            outer: outer.clone(),
            buf: (0..case.range(0, 6)).map(|_| case.byte()).collect(),
            ended: false,
            _tok: case.tok_kind(0, "object"),
            _pin: std::marker::PhantomPinned,
        };
        (o, log, outer)
    }
    fn ans<T>(self: Pin<&mut Self>, op: Op, args: String, cx: Option<&mut Context<'_>>, f: impl FnOnce(&mut Obj) -> T) -> Poll<T>
    where
        T: std::fmt::Debug,
    {
        let this = unsafe { self.get_unchecked_mut() };
        if let Some(cx) = cx {
            let same = this.outer.lock().unwrap().as_ref().map_or(false, |w| w.will_wake(cx.waker()));
            this.case.check(same, || format!("{op:?}: another waker than the caller's"));
            if this.case.chance(1, 3) {
                this.log.0.lock().unwrap().push((format!("{op:?} {args}"), "Pending".into()));
                return Poll::Pending;
            }
        }
        let r = f(this);
        this.log.0.lock().unwrap().push((format!("{op:?} {args}"), format!("{:?}", Poll::Ready(&r))));
        Poll::Ready(r)
    }
    fn io<T>(&self, f: impl FnOnce(&Case) -> T) -> io::Result<T> {
        if self.case.chance(1, 5) {
            Err(io::Error::new(io::ErrorKind::InvalidData, "scripted"))
        } else {
            Ok(f(&self.case))
        }
    }
}

impl Future for Obj {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        self.ans(Op::Poll, String::new(), Some(cx), |t| t.case.below(50) as u64)
    }
}
impl FusedFuture for Obj {
    fn is_terminated(&self) -> bool {
        self.ended
    }
}
impl Stream for Obj {
    type Item = u64;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u64>> {
        self.ans(Op::Next, String::new(), Some(cx), |t| if t.case.chance(1, 4) { None } else { Some(t.case.below(50) as u64) })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.buf.len(), Some(self.buf.len() + 3))
    }
}
impl FusedStream for Obj {
    fn is_terminated(&self) -> bool {
        self.ended
    }
}
impl Sink<u64> for Obj {
    type Error = u64;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u64>> {
        self.ans(Op::Ready, String::new(), Some(cx), |t| if t.case.chance(1, 5) { Err(8) } else { Ok(()) })
    }
    fn start_send(self: Pin<&mut Self>, v: u64) -> Result<(), u64> {
        match self.ans(Op::Start, v.to_string(), None, |t| if t.case.chance(1, 5) { Err(9) } else { Ok(()) }) {
            Poll::Ready(r) => r,
            Poll::Pending => unreachable!(),
        }
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u64>> {
        self.ans(Op::Flush, String::new(), Some(cx), |t| if t.case.chance(1, 5) { Err(10) } else { Ok(()) })
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u64>> {
        self.ans(Op::Close, String::new(), Some(cx), |t| if t.case.chance(1, 3) { Err(11) } else { Ok(()) })
    }
}
impl AsyncRead for Obj {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let a = format!("{}", buf.len());
        self.ans(Op::Read, a, Some(cx), |t| {
            t.io(|c| {
                let n = c.range(0, buf.len());
                for b in &mut buf[..n] {
                    *b = c.byte();
                    t.log.1.lock().unwrap().push(*b);
                }
                n
            })
        })
    }
    fn poll_read_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        let a = format!("{:?}", bufs.iter().map(|b| b.len()).collect::<Vec<_>>());
        self.ans(Op::ReadV, a, Some(cx), |t| {
            t.io(|c| {
                let mut n = 0;
                for b in bufs.iter_mut() {
                    for x in b.iter_mut() {
                        *x = c.byte();
                        t.log.1.lock().unwrap().push(*x);
                        n += 1;
                    }
                }
                n
            })
        })
    }
}
impl AsyncWrite for Obj {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.ans(Op::Write, format!("{buf:?}"), Some(cx), |t| t.io(|c| c.range(0, buf.len())))
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        let a = format!("{:?}", bufs.iter().map(|b| b.to_vec()).collect::<Vec<_>>());
        self.ans(Op::WriteV, a, Some(cx), |t| t.io(|c| c.range(0, bufs.iter().map(|b| b.len()).sum())))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.ans(Op::IoFlush, String::new(), Some(cx), |t| t.io(|_| ()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.ans(Op::IoClose, String::new(), Some(cx), |t| t.io(|_| ()))
    }
}
impl AsyncSeek for Obj {
    fn poll_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, pos: SeekFrom) -> Poll<io::Result<u64>> {
        self.ans(Op::Seek, format!("{pos:?}"), Some(cx), |t| t.io(|c| c.below(50) as u64))
    }
}
impl AsyncBufRead for Obj {
    fn poll_fill_buf(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        match self.as_mut().ans(Op::Fill, String::new(), Some(cx), |t| t.io(|_| t.buf.clone())) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(_)) => Poll::Ready(Ok(&self.into_ref().get_ref().buf)),
        }
    }
    fn consume(self: Pin<&mut Self>, n: usize) {
        let _ = self.ans(Op::Consume, n.to_string(), None, |t| {
            let n = n.min(t.buf.len());
            t.buf.drain(..n);
        });
    }
}

/// What one call gives: the result, printed.
type Got = String;

const FUT: &[Op] = &[Op::Poll];
const STREAM: &[Op] = &[Op::Next];
const SINK: &[Op] = &[Op::Ready, Op::Start, Op::Flush, Op::Close];
const READ: &[Op] = &[Op::Read, Op::ReadV];
const WRITE: &[Op] = &[Op::Write, Op::WriteV, Op::IoFlush, Op::IoClose];
const MORE: &[Op] = &[Op::Seek, Op::Fill, Op::Consume];

/// The arguments of a call, chosen once.
struct Args {
    v: u64,
    lens: Vec<usize>,
    bytes: Vec<Vec<u8>>,
    n: usize,
    /// What was read.
    read: Mutex<Vec<u8>>,
}
impl Args {
    fn gen(case: &Case) -> Self {
        let k = case.range(0, 3);
        Args {
            v: case.below(100) as u64,
            lens: (0..k).map(|_| case.range(0, 4)).collect(),
            bytes: (0..k).map(|_| (0..case.range(0, 4)).map(|_| case.byte()).collect()).collect(),
            n: case.range(0, 3),
            read: Default::default(),
        }
    }
    fn text(&self, op: Op) -> String {
        match op {
            Op::Start => self.v.to_string(),
            Op::Read => self.n.to_string(),
            Op::ReadV => format!("{:?}", self.lens),
            Op::Write => format!("{:?}", self.bytes.concat()),
            Op::WriteV => format!("{:?}", self.bytes),
            Op::Seek => format!("{:?}", SeekFrom::Start(self.v)),
            Op::Consume => self.n.to_string(),
            _ => String::new(),
        }
    }
}

fn call_fut<W: Future<Output = u64>>(w: Pin<&mut W>, _: Op, _: &Args, cx: &mut Context<'_>) -> Got {
    format!("{:?}", w.poll(cx))
}
fn call_stream<W: Stream<Item = u64>>(w: Pin<&mut W>, _: Op, _: &Args, cx: &mut Context<'_>) -> Got {
    format!("{:?}", w.poll_next(cx))
}
fn call_sink<W: Sink<u64, Error = u64>>(w: Pin<&mut W>, op: Op, a: &Args, cx: &mut Context<'_>) -> Got {
    match op {
        Op::Ready => format!("{:?}", w.poll_ready(cx)),
        Op::Start => format!("{:?}", Poll::Ready(w.start_send(a.v))),
        Op::Flush => format!("{:?}", Sink::poll_flush(w, cx)),
        _ => format!("{:?}", Sink::poll_close(w, cx)),
    }
}
fn call_read<W: AsyncRead>(w: Pin<&mut W>, op: Op, a: &Args, cx: &mut Context<'_>) -> Got {
    match op {
        Op::Read => {
            let mut b = vec![0; a.n];
            let r = w.poll_read(cx, &mut b);
            if let Poll::Ready(Ok(n)) = &r {
                a.read.lock().unwrap().extend(&b[..*n]);
            }
            format!("{r:?}")
        }
        _ => {
            let mut bs: Vec<Vec<u8>> = a.lens.iter().map(|n| vec![0; *n]).collect();
            let mut sl: Vec<IoSliceMut<'_>> = bs.iter_mut().map(|b| IoSliceMut::new(b)).collect();
            let r = w.poll_read_vectored(cx, &mut sl);
            if let Poll::Ready(Ok(n)) = &r {
                a.read.lock().unwrap().extend(bs.concat().iter().take(*n));
            }
            format!("{r:?}")
        }
    }
}
fn call_write<W: AsyncWrite>(w: Pin<&mut W>, op: Op, a: &Args, cx: &mut Context<'_>) -> Got {
    match op {
        Op::Write => format!("{:?}", w.poll_write(cx, &a.bytes.concat())),
        Op::WriteV => {
            let sl: Vec<IoSlice<'_>> = a.bytes.iter().map(|b| IoSlice::new(b)).collect();
            format!("{:?}", w.poll_write_vectored(cx, &sl))
        }
        Op::IoFlush => format!("{:?}", AsyncWrite::poll_flush(w, cx)),
        _ => format!("{:?}", AsyncWrite::poll_close(w, cx)),
    }
}
fn call_more<W: AsyncBufRead + AsyncSeek>(w: Pin<&mut W>, op: Op, a: &Args, cx: &mut Context<'_>) -> Got {
    match op {
        Op::Seek => format!("{:?}", w.poll_seek(cx, SeekFrom::Start(a.v))),
        Op::Fill => format!("{:?}", w.poll_fill_buf(cx)),
        _ => {
            w.consume(a.n);
            format!("{:?}", Poll::Ready(()))
        }
    }
}
fn call_all<W>(w: Pin<&mut W>, op: Op, a: &Args, cx: &mut Context<'_>) -> Got
where
    W: Future<Output = u64> + Stream<Item = u64> + Sink<u64, Error = u64> + AsyncRead + AsyncWrite + AsyncSeek + AsyncBufRead,
{
    if FUT.contains(&op) {
        call_fut(w, op, a, cx)
    } else if STREAM.contains(&op) {
        call_stream(w, op, a, cx)
    } else if SINK.contains(&op) {
        call_sink(w, op, a, cx)
    } else if READ.contains(&op) {
        call_read(w, op, a, cx)
    } else if WRITE.contains(&op) {
        call_write(w, op, a, cx)
    } else {
        call_more(w, op, a, cx)
    }
}

fn pick_op(case: &Case, lists: &[&[Op]]) -> Op {
    let l = *case.pick(lists);
    *case.pick(l)
}

/// One call; gives the result and the calls that reached the object.
fn call<W>(
    case: &Case,
    p: &mut Poller,
    outer: &Arc<Mutex<Option<Waker>>>,
    log: &Log,
    w: Pin<&mut W>,
    op: Op,
    a: &Args,
    f: fn(Pin<&mut W>, Op, &Args, &mut Context<'_>) -> Got,
) -> (Got, Vec<(String, String)>, bool) {
    let r = p.poll_cx(|cx| {
        *outer.lock().unwrap() = Some(cx.waker().clone());
        f(w, op, a, cx)
    });
    *outer.lock().unwrap() = None;
    let calls = std::mem::take(&mut *log.0.lock().unwrap());
    case.eq(&*a.read.lock().unwrap(), &*log.1.lock().unwrap(), "bytes read");
    log.1.lock().unwrap().clear();
    case.log(|| format!("{op:?} {} -> {r}, inner {calls:?}, woken {}", a.text(op), p.woken()));
    (r, calls, p.woken())
}

fn pass(case: &Case, op: Op, a: &Args, r: &Got, calls: &[(String, String)], woken: bool) {
    case.eq(calls.len(), 1, "calls that reached the object");
    case.eq(&calls[0].0, &format!("{op:?} {}", a.text(op)), "call that reached the object");
    case.eq(r, &calls[0].1, "result passed back");
    case.check(!woken, || "woken out of nowhere".into());
}

// ------------------------------------------------------------------ wrappers

fn interleave(case: &Case) {
    let (mut o, log, outer) = Obj::new(case);
    o.ended = case.bool();
    let ended = o.ended;
    let mut w = Box::pin(match case.below(5) {
        0 => FutureTestExt::interleave_pending(o),
        1 => futures_test::stream::StreamTestExt::interleave_pending(o),
        2 => SinkTestExt::<u64>::interleave_pending_sink(o),
        3 => AsyncReadTestExt::interleave_pending(o),
        _ => AsyncWriteTestExt::interleave_pending_write(o),
    });
    let mut p = Poller::new(case);
    let mut pended = false;
    let all: &[&[Op]] = &[FUT, STREAM, SINK, READ, WRITE, MORE];
    let k = case.range(1, 3);
    let lists: Vec<&[Op]> = (0..k).map(|_| *case.pick(all)).collect();
    let n = case.range(1, 12);
    for _ in 0..n {
        let (op, a) = (pick_op(case, &lists), Args::gen(case));
        let (r, calls, woken) = call(case, &mut p, &outer, &log, w.as_mut(), op, &a, call_all);
        if matches!(op, Op::Start | Op::Consume) || pended {
            pass(case, op, &a, &r, &calls, woken);
            if !matches!(op, Op::Start | Op::Consume) && r != "Pending" {
                pended = false;
            }
        } else {
            case.eq(&r, "Pending", "extra step");
            case.check(calls.is_empty(), || "the object was reached in the extra step".into());
            case.check(woken, || "the extra step does not wake the task".into());
            pended = true;
        }
        case.eq(FusedFuture::is_terminated(&*w), ended, "is_terminated");
        case.eq(FusedStream::is_terminated(&*w), ended, "is_terminated");
        case.eq(w.size_hint(), Stream::size_hint(w.get_ref()), "size_hint");
    }
    if n > 4 {
        case.nontrivial();
    }
    drop(w);
    case.no_leaks("interleave_pending");
}

fn unmoved(case: &Case) {
    let (mut o, log, outer) = Obj::new(case);
    o.ended = case.bool();
    let ended = o.ended;
    // Two places; the object moves from one to the other, breaking the pinning.
    let mut slots: Box<[Option<futures_test::future::AssertUnmoved<Obj>>; 2]> =
        Box::new([
            Some(match case.below(5) {
                0 => FutureTestExt::assert_unmoved(o),
                1 => futures_test::stream::StreamTestExt::assert_unmoved(o),
                2 => SinkTestExt::<u64>::assert_unmoved_sink(o),
                3 => AsyncReadTestExt::assert_unmoved(o),
                _ => AsyncWriteTestExt::assert_unmoved_write(o),
            }),
            None,
        ]);
    let mut p = Poller::new(case);
    let (mut at, mut home) = (0, None);
    let n = case.range(1, 6);
    let mut panicked = false;
    for _ in 0..n {
        if case.chance(1, 5) {
            let w = slots[at].take();
            at = 1 - at;
            slots[at] = w;
            case.label("moved");
        }
        let op = pick_op(case, &[FUT, STREAM, SINK, READ, WRITE, MORE]);
        let a = Args::gen(case);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let w = unsafe { Pin::new_unchecked(slots[at].as_mut().unwrap()) };
            call(case, &mut p, &outer, &log, w, op, &a, call_all)
        }));
        let moved = home.map_or(false, |h| h != at);
        home = home.or(Some(at));
        match r {
            Ok((r, calls, woken)) => {
                case.check(!moved, || "a moved object was used without an alarm".into());
                pass(case, op, &a, &r, &calls, woken);
            }
            Err(e) => {
                if e.is::<Failed>() || e.is::<Inconclusive>() {
                    std::panic::resume_unwind(e)
                }
                case.check(moved, || "an alarm although nothing moved".into());
                log.0.lock().unwrap().clear();
                *outer.lock().unwrap() = None;
                panicked = true;
            }
        }
        let w = slots[at].as_ref().unwrap();
        case.eq(FusedFuture::is_terminated(w), ended, "is_terminated");
        case.eq(FusedStream::is_terminated(w), ended, "is_terminated");
    }
    if case.chance(1, 5) {
        let w = slots[at].take();
        at = 1 - at;
        slots[at] = w;
    }
    let moved = home.map_or(false, |h| h != at);
    if case.bool() {
        // While unwinding it has to keep quiet: a second panic would abort.
        let r = catch_unwind(AssertUnwindSafe(|| {
            let _g = slots;
            std::panic::panic_any(vh::case::Injected(1))
        }));
        case.check(r.is_err(), || "?".into());
        case.label_if(moved, "moved_while_unwinding");
    } else {
        let r = catch_unwind(AssertUnwindSafe(|| slots[at] = None));
        case.eq(r.is_err(), moved, "alarm when dropped elsewhere");
        case.label_if(moved, "moved_before_drop");
        drop(slots);
    }
    case.no_leaks("assert_unmoved");
    if n > 2 || panicked {
        case.nontrivial();
    }
}

fn track_closed(case: &Case) {
    let (o, log, outer) = Obj::new(case);
    let io = case.bool();
    let mut w = Box::pin(if io { AsyncWriteTestExt::track_closed(o) } else { SinkTestExt::track_closed(o) });
    let mut p = Poller::new(case);
    let n = case.range(1, 10);
    let mut closed = false;
    for _ in 0..n {
        let op = *case.pick(if io { WRITE } else { SINK });
        let a = Args::gen(case);
        let r = catch_unwind(AssertUnwindSafe(|| {
            call(case, &mut p, &outer, &log, w.as_mut(), op, &a, if io { call_write } else { call_sink })
        }));
        match r {
            Ok((r, calls, woken)) => {
                if closed {
                    case.check(io && r.starts_with("Ready(Err"), || format!("{op:?} after close gave {r}"));
                    case.check(calls.is_empty(), || "the closed object was used".into());
                    case.label("refused");
                } else {
                    pass(case, op, &a, &r, &calls, woken);
                    closed = matches!(op, Op::Close | Op::IoClose) && r == "Ready(Ok(()))";
                }
            }
            Err(e) => {
                if e.is::<Failed>() || e.is::<Inconclusive>() {
                    std::panic::resume_unwind(e)
                }
                case.check(closed && !io, || format!("panic in {op:?}"));
                *outer.lock().unwrap() = None;
            }
        }
        case.eq(w.is_closed(), closed, "is_closed");
    }
    if closed && n > 3 {
        case.nontrivial();
    }
    drop(w);
    case.no_leaks("track_closed");
}

fn limited(case: &Case) {
    let (o, log, outer) = Obj::new(case);
    let limit = case.range(0, 6);
    let mut w = Box::pin(if case.bool() { AsyncReadTestExt::limited(o, limit) } else { AsyncWriteTestExt::limited_write(o, limit) });
    let mut p = Poller::new(case);
    let n = case.range(1, 10);
    let mut cut = 0;
    for _ in 0..n {
        let op = pick_op(case, &[READ, WRITE, WRITE, MORE]);
        if op == Op::Seek {
            continue;
        }
        let a = Args::gen(case);
        let f: fn(Pin<&mut _>, Op, &Args, &mut Context<'_>) -> Got = |w: Pin<&mut futures_test::io::read::Limited<Obj>>, op, a, cx| {
            if READ.contains(&op) {
                call_read(w, op, a, cx)
            } else if WRITE.contains(&op) {
                call_write(w, op, a, cx)
            } else if op == Op::Fill {
                format!("{:?}", w.poll_fill_buf(cx))
            } else {
                w.consume(a.n);
                format!("{:?}", Poll::Ready(()))
            }
        };
        let (r, calls, woken) = call(case, &mut p, &outer, &log, w.as_mut(), op, &a, f);
        match op {
            Op::Read | Op::ReadV | Op::Write | Op::WriteV => {
                case.check(!woken, || "woken out of nowhere".into());
                case.eq(calls.len(), 1, "calls that reached the object");
                let (c, cr) = &calls[0];
                case.eq(&r, cr, "result passed back");
                // The bytes offered are a start of those given, within the limit.
                let (name, args) = c.split_once(' ').unwrap();
                let nums: Vec<usize> =
                    args.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                let (given, offered): (Vec<usize>, usize) = match op {
                    Op::Read => (vec![], a.n),
                    Op::ReadV => (vec![], a.lens.iter().sum()),
                    _ => (a.bytes.concat().iter().map(|b| *b as usize).collect(), a.bytes.concat().len()),
                };
                let reached = if name.starts_with("Read") { nums.iter().sum() } else { nums.len() };
                if !name.starts_with("Read") {
                    case.check(given.starts_with(&nums), || format!("wrote {nums:?} instead of {given:?}"));
                }
                case.check(reached <= limit, || format!("{reached} bytes in one call, the limit is {limit}"));
                case.check(reached > 0 || limit == 0 || offered == 0, || "nothing is let through".into());
                if matches!(op, Op::Read | Op::Write) {
                    case.eq(reached, offered.min(limit), "bytes of one call");
                    cut += (offered > limit) as usize;
                }
            }
            _ => pass(case, op, &a, &r, &calls, woken),
        }
    }
    if cut > 0 {
        case.nontrivial();
    }
    drop(w);
    case.no_leaks("limited");
}

fn pending_once(case: &Case) {
    let (mut o, log, outer) = Obj::new(case);
    o.ended = case.bool();
    let ended = o.ended;
    let mut w = Box::pin(o.pending_once());
    let mut p = Poller::new(case);
    case.check(!w.is_terminated(), || "terminated before the first poll".into());
    let n = case.range(1, 6);
    for i in 0..n {
        let a = Args::gen(case);
        let (r, calls, woken) = call(case, &mut p, &outer, &log, w.as_mut(), Op::Poll, &a, call_fut);
        if i == 0 {
            case.eq(&r, "Pending", "first poll");
            case.check(woken && calls.is_empty(), || "first poll: no wake, or the future was polled".into());
        } else {
            pass(case, Op::Poll, &a, &r, &calls, woken);
            if r != "Pending" {
                break;
            }
        }
        case.eq(w.is_terminated(), ended, "is_terminated");
    }
    if n > 2 {
        case.nontrivial();
    }
    drop(w);
    case.no_leaks("pending_once");
}

// -------------------------------------------------- wakers, spawners, asserts

fn quiet<R>(case: &Case, f: impl FnOnce() -> R) -> Result<R, ()> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            if e.is::<Failed>() || e.is::<Inconclusive>() {
                std::panic::resume_unwind(e)
            }
            let _ = case;
            Err(())
        }
    }
}

/// Real threads wake clones of counting wakers at the same time: none is lost.
fn count_threads(case: &Case) {
    let n = case.range(1, 2);
    let (ws, cs): (Vec<Waker>, Vec<_>) = (0..n).map(|_| tt::new_count_waker()).unzip();
    let threads = case.range(2, if cfg!(miri) { 3 } else { 5 });
    let each = if cfg!(miri) { case.range(1, 4) } else { case.range(50, 600) };
    let mut want = vec![0usize; n];
    let start = Arc::new(std::sync::Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let i = case.below(n);
            let by_ref = case.bool();
            want[i] += each;
            let (w, start) = (ws[i].clone(), start.clone());
            std::thread::spawn(move || {
                start.wait();
                for _ in 0..each {
                    if by_ref {
                        w.wake_by_ref()
                    } else {
                        w.clone().wake()
                    }
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    for i in 0..n {
        case.eq(cs[i].get(), want[i], "wakes counted that came from several threads");
    }
    case.nontrivial();
}

fn tools(case: &Case) {
    match case.below(4) {
        0 => {
            let n = case.range(1, 3);
            let mut ws: Vec<Vec<Waker>> = vec![];
            let mut cs = vec![];
            for _ in 0..n {
                let (w, c) = tt::new_count_waker();
                ws.push(vec![w]);
                cs.push(c);
            }
            let mut want = vec![0usize; n];
            let k = case.range(1, 12);
            for _ in 0..k {
                let i = case.below(n);
                if ws[i].is_empty() {
                    continue;
                }
                let j = case.below(ws[i].len());
                match case.below(4) {
                    0 => {
                        let w = ws[i][j].clone();
                        case.check(w.will_wake(&ws[i][j]), || "a clone of a waker that wakes something else".into());
                        ws[i].push(w)
                    }
                    1 => {
                        ws[i][j].wake_by_ref();
                        want[i] += 1;
                    }
                    2 => {
                        ws[i].swap_remove(j).wake();
                        want[i] += 1;
                    }
                    _ => drop(ws[i].swap_remove(j)),
                }
                for i in 0..n {
                    case.eq(cs[i].get(), want[i], "wakes counted");
                    case.check(cs[i] == want[i] && !(cs[i] == want[i] + 1), || "comparison of the counter".into());
                }
            }
            if k > 4 {
                case.nontrivial();
            }
        }
        1 => {
            let w = if case.bool() { tt::panic_waker() } else { tt::panic_waker_ref().clone() };
            let c = w.clone();
            let mut cx = tt::panic_context();
            case.check(quiet(case, || w.wake_by_ref()).is_err(), || "no alarm from the waker".into());
            case.check(quiet(case, || c.wake()).is_err(), || "no alarm from the waker".into());
            case.check(quiet(case, || cx.waker().wake_by_ref()).is_err(), || "no alarm from the context".into());
            struct Wakes(Waker);
            impl Drop for Wakes {
                fn drop(&mut self) {
                    self.0.wake_by_ref()
                }
            }
            // Not while unwinding, where it would abort.
            let g = Wakes(w);
            let r = catch_unwind(AssertUnwindSafe(move || {
                let _g = g;
                std::panic::panic_any(vh::case::Injected(2))
            }));
            case.check(r.is_err(), || "?".into());
            let nw = tt::noop_waker();
            nw.wake_by_ref();
            tt::noop_waker_ref().wake_by_ref();
            cx = tt::noop_context();
            cx.waker().wake_by_ref();
            nw.wake();
            case.nontrivial();
        }
        2 => {
            use futures::task::{Spawn, SpawnExt};
            let rec = tt::RecordSpawner::new();
            let n = case.range(0, 5);
            for i in 0..n {
                let t = case.tok(i as u64);
                let r = match case.below(3) {
                    0 => rec.spawn(async move { drop(t) }),
                    1 => (&rec).spawn_obj(Box::pin(async move { drop(t) }).into()),
                    _ => rec.spawn_with_handle(async move { drop(t) }).map(|h| h.forget()),
                };
                case.check(r.is_ok(), || "refused".into());
                case.eq(rec.spawned().len(), i + 1, "futures recorded");
                if !cfg!(miri) {
                    case.eq(case.live(), i + 1, "recorded futures alive");
                }
            }
            drop(rec);
            case.no_leaks("recorded futures");
            let no = tt::NoopSpawner::new();
            let t = case.tok(9);
            case.check(no.spawn(async move { drop(t) }).is_ok(), || "refused".into());
            case.no_leaks("ignored future");
            let t = case.tok(9);
            let pa = tt::PanicSpawner::new();
            case.check(quiet(case, || pa.spawn(async move { drop(t) })).is_err(), || "no alarm".into());
            case.no_leaks("future of the panicking spawner");
            if n > 1 {
                case.nontrivial();
            }
        }
        _ => {
            // The assertions hold exactly in the state they name.
            let plan: Vec<usize> = (0..case.range(0, 5)).map(|_| case.below(3)).collect();
            let mut it = plan.clone().into_iter();
            let mut s = futures::stream::poll_fn(move |_| match it.next() {
                Some(0) => Poll::Pending,
                Some(x) => Poll::Ready(Some(x)),
                None => Poll::Ready(None),
            })
            .fuse();
            let mut states = plan.iter().map(|x| *x).collect::<Vec<_>>();
            states.push(9);
            for st in states {
                match case.below(3) {
                    0 => case.eq(quiet(case, || {
                        futures_test::assert_stream_pending!(s);
                    })
                    .is_ok(), st == 0, "assert_stream_pending passes"),
                    1 => {
                        let v = case.range(1, 2);
                        case.eq(quiet(case, || futures_test::assert_stream_next!(s, v)).is_ok(), st == v, "assert_stream_next passes")
                    }
                    _ => case.eq(quiet(case, || futures_test::assert_stream_done!(s)).is_ok(), st == 9, "assert_stream_done passes"),
                }
            }
            if plan.len() > 2 {
                case.nontrivial();
            }
        }
    }
}

fn background(case: &Case) {
    let (tx, rx) = std::sync::mpsc::channel();
    let n = case.range(1, 3) as u64;
    let y = case.bool();
    for i in 0..n {
        let tx = tx.clone();
        let f = async move { tx.send(i).unwrap() };
        if y {
            f.pending_once().run_in_background()
        } else {
            FutureTestExt::interleave_pending(f).run_in_background()
        }
    }
    drop(tx);
    let mut got: Vec<u64> = rx.into_iter().collect();
    got.sort();
    case.eq(got, (0..n).collect::<Vec<_>>(), "futures run in the background");
    case.nontrivial();
}

include!("../inc/fwd.rs");

fn main() {
    main_for(vec![c32(), Prop {
        id: "C28",
        rule: "Histories of up to 12 calls of every trait method (future, stream, sink, reader, writer, seek, buffered reader) on a test wrapper around an object whose every answer is generated; model = the calls that reach the object and the result passed back, with the one deviation the wrapper is for. unmoved also moves the object at generated moments. tools: counting and panicking wakers, spawners and stream assertions in generated states. count_threads: up to 5 real threads waking at once. Non-trivial: >4 calls (interleave), >2 calls or an alarm (unmoved), use after close (track_closed), a call cut by the limit (limited), >2 polls (pending_once), as coded per tool.",
        subs: vec![
            sub("interleave", interleave, 1_500_000, 15_000_000).miri(32, 500),
            sub("unmoved", unmoved, 750_000, 7_500_000),
            sub("track_closed", track_closed, 1_000_000, 10_000_000).miri(16, 300),
            sub("limited", limited, 1_500_000, 15_000_000).miri(16, 300),
            sub("pending_once", pending_once, 250_000, 2_500_000).miri(8, 100),
            sub("tools", tools, 750_000, 7_500_000).miri(24, 300),
            sub("count_threads", count_threads, 2_000, 20_000).miri(16, 300),
            sub("background", background, 300, 3_000).miri(8, 50),
        ],
    }]);
}
