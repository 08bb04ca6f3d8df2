// ------------------------------------------------------------ C32 forwarding

use futures::future::{self, Either, FutureExt, TryFutureExt};
use futures::io::AsyncReadExt;
use futures::sink::SinkExt;
use futures::stream::{self, TryStreamExt};

type PB = Pin<Box<Obj>>;

/// Calls through a pointer, a pin or an `Either` reach the object as they are.
fn fwd_calls<W>(case: &Case, w: Pin<&mut W>, log: &Log, outer: &Arc<Mutex<Option<Waker>>>, lists: &[&[Op]], f: fn(Pin<&mut W>, Op, &Args, &mut Context<'_>) -> Got) {
    fwd_until(case, w, log, outer, lists, f, false)
}

fn fwd_until<W>(case: &Case, w: Pin<&mut W>, log: &Log, outer: &Arc<Mutex<Option<Waker>>>, lists: &[&[Op]], f: fn(Pin<&mut W>, Op, &Args, &mut Context<'_>) -> Got, to_error: bool) {
    let mut w = w;
    let mut p = Poller::new(case);
    let n = case.range(1, 8);
    for _ in 0..n {
        let (op, a) = (pick_op(case, lists), Args::gen(case));
        let (r, calls, woken) = call(case, &mut p, outer, log, w.as_mut(), op, &a, f);
        pass(case, op, &a, &r, &calls, woken);
        if to_error && r.contains("Err") {
            break;
        }
    }
    if n > 2 {
        case.nontrivial();
    }
}

fn fwd_flags<W: FusedFuture + FusedStream + ?Sized>(case: &Case, w: &W, ended: bool, hint: (usize, Option<usize>)) {
    case.eq(FusedFuture::is_terminated(w), ended, "is_terminated as a future");
    case.eq(FusedStream::is_terminated(w), ended, "is_terminated as a stream");
    case.eq(w.size_hint(), hint, "size_hint");
}

fn fwd_s_flags<W: FusedStream + ?Sized>(case: &Case, w: &W, ended: bool, hint: (usize, Option<usize>)) {
    case.eq(w.is_terminated(), ended, "is_terminated as a stream");
    case.eq(w.size_hint(), hint, "size_hint");
}

const ALL: &[&[Op]] = &[FUT, STREAM, SINK, READ, WRITE, MORE];

fn pointers(case: &Case) {
    let (mut o, log, outer) = Obj::new(case);
    o.ended = case.bool();
    let (ended, h) = (o.ended, Stream::size_hint(&o));
    pointer_kinds(case, Box::pin(o), &log, &outer, ended, h);
    case.no_leaks("forwarded object");
}

fn pointer_kinds(case: &Case, mut b: PB, log: &Log, outer: &Arc<Mutex<Option<Waker>>>, ended: bool, h: (usize, Option<usize>)) {
    macro_rules! go {
        ($w:expr) => {{
            let mut w = $w;
            fwd_flags(case, &w, ended, h);
            fwd_calls(case, Pin::new(&mut w), log, outer, ALL, call_all);
            case.eq(FusedStream::is_terminated(&w), ended, "is_terminated after calls");
        }};
    }
    match case.below(12) {
        0 => go!(b),
        1 => go!(&mut b),
        2 => go!(Box::new(b)),
        3 => go!(b.as_mut()),
        4 => go!(Box::pin(b)),
        5 => go!(Pin::new(&mut b)),
        6 => go!(&mut &mut b),
        7 => go!(Either::<PB, Box<PB>>::Left(b)),
        8 => go!(Either::<&mut PB, PB>::Right(b)),
        9 => {
            // The object itself inside, pinned with the `Either`.
            drop(b);
            log.0.lock().unwrap().clear();
            let (mut o, log, outer) = Obj::new(case);
            o.ended = ended;
            let h = Stream::size_hint(&o);
            let mut w: Pin<Box<Either<Obj, Obj>>> = Box::pin(if case.bool() { Either::Left(o) } else { Either::Right(o) });
            fwd_flags(case, &*w, ended, h);
            let at = &*w as *const _ as usize;
            let inside = match w.as_ref().as_pin_ref() {
                Either::Left(x) | Either::Right(x) => x.get_ref() as *const Obj as usize,
            };
            case.check(inside >= at && inside < at + std::mem::size_of::<Either<Obj, Obj>>(), || "as_pin_ref points elsewhere".into());
            let left = matches!(&*w, Either::Left(_));
            let m = match w.as_mut().as_pin_mut() {
                Either::Left(x) => (true, &*x as *const Obj as usize),
                Either::Right(x) => (false, &*x as *const Obj as usize),
            };
            case.eq(m, (left, inside), "as_pin_mut");
            fwd_calls(case, w.as_mut(), &log, &outer, ALL, call_all);
        }
        10 => {
            // Only streams pass through this one.
            let mut w = std::panic::AssertUnwindSafe(b);
            case.eq(Stream::size_hint(&w), h, "size_hint");
            fwd_calls(case, Pin::new(&mut w), log, outer, &[STREAM], call_stream);
        }
        _ => {
            // As trait objects.
            match case.below(6) {
                0 => {
                    let mut w: stream::BoxStream<'_, u64> = StreamExt::boxed(TSend(b));
                    case.eq(w.size_hint(), h, "size_hint");
                    fwd_calls(case, Pin::new(&mut w), log, outer, &[STREAM], call_stream);
                }
                1 => {
                    let mut w: stream::LocalBoxStream<'_, u64> = StreamExt::boxed_local(b);
                    case.eq(w.size_hint(), h, "size_hint");
                    fwd_calls(case, Pin::new(&mut w), log, outer, &[STREAM], call_stream);
                }
                2 => {
                    let mut w: future::BoxFuture<'_, u64> = FutureExt::boxed(TSend(b));
                    fwd_calls(case, Pin::new(&mut w), log, outer, &[FUT], call_fut);
                }
                3 => {
                    let mut w: future::LocalBoxFuture<'_, u64> = FutureExt::boxed_local(b);
                    fwd_calls(case, Pin::new(&mut w), log, outer, &[FUT], call_fut);
                }
                4 => {
                    let mut w: Box<dyn Sink<u64, Error = u64> + Unpin> = Box::new(b);
                    fwd_calls(case, Pin::new(&mut w), log, outer, &[SINK], call_sink);
                }
                _ => {
                    let mut w: Box<dyn FusedStream<Item = u64> + Unpin> = Box::new(b);
                    fwd_s_flags(case, &w, ended, h);
                    fwd_calls(case, Pin::new(&mut w), log, outer, &[STREAM], call_stream);
                }
            }
        }
    }
}

/// The object is used by one thread only.
struct TSend(PB);
unsafe impl Send for TSend {}
impl Future for TSend {
    type Output = u64;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        Future::poll(self.0.as_mut(), cx)
    }
}
impl Stream for TSend {
    type Item = u64;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u64>> {
        self.0.as_mut().poll_next(cx)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        Stream::size_hint(&self.0)
    }
}

/// Only the required methods: the provided ones call them.
struct Min(PB);
impl AsyncRead for Min {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.0.as_mut().poll_read(cx, buf)
    }
}
impl AsyncWrite for Min {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.0.as_mut().poll_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        AsyncWrite::poll_flush(self.0.as_mut(), cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        AsyncWrite::poll_close(self.0.as_mut(), cx)
    }
}

/// The other direction of buffered readers and writers, sides of adaptors that
/// only pass through, provided methods.
fn other_side(case: &Case) {
    let (o, log, outer) = Obj::new(case);
    let b: PB = Box::pin(o);
    match case.below(8) {
        0 => {
            let mut w = futures::io::BufReader::with_capacity(case.range(0, 4), b);
            fwd_calls(case, Pin::new(&mut w), &log, &outer, &[WRITE], call_write);
        }
        1 => {
            let mut w = futures::io::BufWriter::with_capacity(case.range(0, 4), b);
            fwd_calls(case, Pin::new(&mut w), &log, &outer, &[READ], call_read);
        }
        2 => {
            let mut w = futures::io::BufWriter::with_capacity(case.range(0, 4), b);
            fwd_calls(case, Pin::new(&mut w), &log, &outer, &[&[Op::Fill, Op::Consume]], |mut w, op, a, cx| {
                if op == Op::Fill {
                    format!("{:?}", w.poll_fill_buf(cx))
                } else {
                    w.as_mut().consume(a.n);
                    format!("{:?}", Poll::Ready(()))
                }
            });
        }
        3 => {
            struct Blocks(PB);
            impl Stream for Blocks {
                type Item = io::Result<Vec<u8>>;
                fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
                    unreachable!()
                }
            }
            impl AsyncWrite for Blocks {
                fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                    self.0.as_mut().poll_write(cx, buf)
                }
                fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
                    self.0.as_mut().poll_write_vectored(cx, bufs)
                }
                fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                    AsyncWrite::poll_flush(self.0.as_mut(), cx)
                }
                fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                    AsyncWrite::poll_close(self.0.as_mut(), cx)
                }
            }
            let mut w = Blocks(b).into_async_read();
            fwd_calls(case, Pin::new(&mut w), &log, &outer, &[&[Op::Write, Op::IoFlush, Op::IoClose]], call_write);
        }
        4 => {
            // Provided methods: one call with the first buffer that is not empty.
            let mut w = Min(b);
            let mut p = Poller::new(case);
            let n = case.range(1, 8);
            for _ in 0..n {
                let (op, a) = (*case.pick(&[Op::ReadV, Op::WriteV]), Args::gen(case));
                let (r, calls, woken) =
                    call(case, &mut p, &outer, &log, Pin::new(&mut w), op, &a, if op == Op::ReadV { call_read } else { call_write });
                case.eq(calls.len(), 1, "calls that reached the object");
                let want = if op == Op::ReadV {
                    format!("Read {}", a.lens.iter().find(|n| **n > 0).unwrap_or(&0))
                } else {
                    format!("Write {:?}", a.bytes.iter().find(|b| !b.is_empty()).cloned().unwrap_or_default())
                };
                case.eq(&calls[0].0, &want, "call that reached the object");
                case.eq(&r, &calls[0].1, "result passed back");
                case.check(!woken, || "woken out of nowhere".into());
            }
            if n > 2 {
                case.nontrivial();
            }
        }
        5 => {
            // Sinks that only change the type of the error.
            let mut w = b.sink_err_into::<u64>();
            fwd_until(case, Pin::new(&mut w), &log, &outer, &[SINK], call_sink, true);
        }
        6 => {
            let mut w = StreamExt::map(TryStreamExt::into_stream(StreamExt::map(b, Ok::<u64, u8>)), |r| r.unwrap());
            fwd_calls(case, Pin::new(&mut w), &log, &outer, &[STREAM, SINK], |w, op, a, cx| {
                if op == Op::Next {
                    call_stream(w, op, a, cx)
                } else {
                    call_sink(w, op, a, cx)
                }
            });
        }
        _ => {
            // What is already a future needs no work to become one.
            let mut w = TryFutureExt::into_future(FutureExt::map(b, Ok::<u64, u8>)).map(|r| r.unwrap());
            let mut p = Poller::new(case);
            for _ in 0..8 {
                let a = Args::gen(case);
                let (r, calls, woken) = call(case, &mut p, &outer, &log, Pin::new(&mut w), Op::Poll, &a, call_fut);
                pass(case, Op::Poll, &a, &r, &calls, woken);
                if r != "Pending" {
                    case.eq(FusedFuture::is_terminated(&w), true, "is_terminated of a finished map");
                    break;
                }
                case.nontrivial();
            }
        }
    }
    case.no_leaks("passed through");
}

// ------------------------------------------------------------ C32 accessors

/// A source known by its number; everything else about it is simple.
struct Src<I> {
    id: usize,
    used: usize,
    case: Case,
    make: fn(u64) -> I,
    _tok: Tok,
}
impl<I> Src<I> {
    fn new(case: &Case, make: fn(u64) -> I) -> Self {
        Src { id: case.below(1000), used: 0, case: case.clone(), make, _tok: case.tok_kind(0, "source") }
    }
    fn step(&mut self) -> Option<u64> {
        self.used += 1;
        if self.case.chance(1, 3) {
            None
        } else {
            Some(self.case.below(4) as u64)
        }
    }
}
impl<I> Stream for Src<I> {
    type Item = I;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<I>> {
        match self.step() {
            None => Poll::Pending,
            Some(0) => Poll::Ready(None),
            Some(v) => Poll::Ready(Some((self.make)(v))),
        }
    }
}
impl<I, J> Sink<J> for Src<I> {
    type Error = u64;
    fn poll_ready(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), u64>> {
        match self.step() {
            None => Poll::Pending,
            Some(0) => Poll::Ready(Err(1)),
            Some(_) => Poll::Ready(Ok(())),
        }
    }
    fn start_send(mut self: Pin<&mut Self>, _: J) -> Result<(), u64> {
        self.used += 1;
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u64>> {
        Sink::<J>::poll_ready(self, cx)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u64>> {
        Sink::<J>::poll_ready(self, cx)
    }
}
impl<I> AsyncRead for Src<I> {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        match self.step() {
            None => Poll::Pending,
            Some(n) => Poll::Ready(Ok(buf.len().min(n as usize))),
        }
    }
}
impl<I> AsyncWrite for Src<I> {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        match self.step() {
            None => Poll::Pending,
            Some(n) => Poll::Ready(Ok(buf.len().min(n as usize))),
        }
    }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.step();
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        AsyncWrite::poll_flush(self, cx)
    }
}

fn accessors(case: &Case) {
    let cx = &mut Context::from_waker(futures::task::noop_waker_ref());
    let k = case.range(0, 4);
    let mut gone = false;
    // `ret!`: the wrapper has one source inside; `$step` uses the wrapper once.
    macro_rules! ret {
        ($make:expr, |$s:ident| $w:expr, |$x:ident| $step:expr) => {{
            let $s = Src::new(case, $make);
            let id = $s.id;
            let mut w = $w;
            for i in 0..=k {
                case.eq(w.get_ref().id, id, "get_ref");
                case.eq(w.get_mut().id, id, "get_mut");
                case.eq(Pin::new(&mut w).get_pin_mut().id, id, "get_pin_mut");
                if i < k && !gone {
                    let $x = Pin::new(&mut w);
                    gone = $step;
                }
            }
            // What is done to the source through the wrapper is done to it.
            w.get_mut().used += 100;
            let used = w.get_ref().used;
            let s = w.into_inner();
            case.eq((s.id, s.used), (id, used), "into_inner gives the source as it is");
        }};
        ($make:expr, |$s:ident| $w:expr) => {
            ret!($make, |$s| $w, |x| matches!(x.poll_next(cx), Poll::Ready(None)))
        };
    }
    macro_rules! two {
        (|$a:ident, $b:ident| $w:expr, |$x:ident| $step:expr) => {{
            let ($a, $b) = (Src::new(case, |v| v), Src::new(case, |v| v));
            let ids = ($a.id, $b.id);
            let mut w = $w;
            for i in 0..=k {
                let (a, b) = w.get_ref();
                case.eq((a.id, b.id), ids, "get_ref");
                let (a, b) = w.get_mut();
                case.eq((a.id, b.id), ids, "get_mut");
                let (a, b) = Pin::new(&mut w).get_pin_mut();
                case.eq((a.id, b.id), ids, "get_pin_mut");
                if i < k && !gone {
                    let $x = Pin::new(&mut w);
                    gone = $step;
                }
            }
            w.get_mut().0.used += 100;
            let used = (w.get_ref().0.used, w.get_ref().1.used);
            let (a, b) = w.into_inner();
            case.eq((a.id, b.id), ids, "into_inner, in order");
            case.eq((a.used, b.used), used, "into_inner gives the sources as they are");
        }};
        (|$a:ident, $b:ident| $w:expr) => {
            two!(|$a, $b| $w, |x| matches!(x.poll_next(cx), Poll::Ready(None)))
        };
    }
    type R = Result<u64, u64>;
    fn id(v: u64) -> u64 {
        v
    }
    fn res(v: u64) -> R {
        if v == 2 { Err(v) } else { Ok(v) }
    }
    fn fut(v: u64) -> future::Ready<u64> {
        future::ready(v)
    }
    fn st(v: u64) -> stream::Once<future::Ready<u64>> {
        stream::once(future::ready(v))
    }
    fn rfut(v: u64) -> Result<future::Ready<R>, u64> {
        if v == 2 { Err(2) } else { Ok(future::ready(Ok(v))) }
    }
    fn rst(v: u64) -> Result<stream::Iter<std::vec::IntoIter<R>>, u64> {
        if v == 2 { Err(2) } else { Ok(stream::iter(vec![Ok(v), Err(v)])) }
    }
    let odd = |v: &u64| future::ready(v % 2 == 1);
    let which = case.below(60);
    match which {
        0 => ret!(id, |s| s.map(|v| v)),
        1 => ret!(id, |s| s.enumerate()),
        2 => ret!(id, |s| s.filter(odd)),
        3 => ret!(id, |s| s.filter_map(|v| future::ready(Some(v)))),
        4 => ret!(id, |s| s.then(fut)),
        5 => ret!(st, |s| s.flatten()),
        6 => ret!(id, |s| s.flat_map(st)),
        7 => ret!(st, |s| s.flatten_unordered(1)),
        8 => ret!(id, |s| s.flat_map_unordered(None, st)),
        9 => ret!(id, |s| s.scan(0, |n, v| future::ready(Some((n, v))))),
        10 => ret!(id, |s| s.skip_while(odd)),
        11 => ret!(id, |s| s.take_while(odd)),
        12 => ret!(id, |s| s.take_until(future::pending::<()>())),
        13 => ret!(id, |s| StreamExt::take(s, 2)),
        14 => ret!(id, |s| s.skip(1)),
        15 => ret!(id, |s| s.fuse()),
        16 => ret!(id, |s| s.inspect(|_| ())),
        18 => ret!(fut, |s| s.buffered(2)),
        19 => ret!(fut, |s| s.buffer_unordered(2)),
        20 => ret!(id, |s| s.peekable()),
        21 => ret!(id, |s| s.chunks(2)),
        22 => ret!(id, |s| s.ready_chunks(2)),
        23 => ret!(res, |s| s.map_ok(|v| v)),
        24 => ret!(res, |s| s.map_err(|v| v)),
        25 => ret!(res, |s| s.and_then(|v| future::ready(Ok(v)))),
        26 => ret!(res, |s| s.or_else(|v| future::ready(Err::<u64, u64>(v)))),
        27 => ret!(res, |s| s.err_into::<u64>()),
        28 => ret!(res, |s| s.inspect_ok(|_| ())),
        29 => ret!(res, |s| s.inspect_err(|_| ())),
        30 => ret!(res, |s| TryStreamExt::into_stream(s)),
        31 => ret!(res, |s| s.try_skip_while(|v| future::ready(Ok(v % 2 == 1)))),
        32 => ret!(res, |s| s.try_take_while(|v| future::ready(Ok(v % 2 == 1)))),
        33 => ret!(res, |s| s.try_filter(odd)),
        34 => ret!(res, |s| s.try_filter_map(|v| future::ready(Ok(Some(v))))),
        35 => ret!(rst, |s| s.try_flatten()),
        36 => ret!(rst, |s| s.try_flatten_unordered(2)),
        37 => ret!(rfut, |s| s.try_buffered(2)),
        38 => ret!(rfut, |s| s.try_buffer_unordered(2)),
        39 => ret!(res, |s| s.try_chunks(2)),
        40 => ret!(res, |s| s.try_ready_chunks(2)),
        41 => two!(|a, b| a.zip(b)),
        42 => two!(|a, b| stream::select(a, b)),
        43 => two!(|a, b| stream::select_with_strategy(a, b, |_: &mut ()| stream::PollNext::Right)),
        44 => two!(|a, b| SinkExt::<u64>::fanout(a, b), |x| Sink::<u64>::poll_flush(x, cx).is_ready()),
        45 => ret!(id, |s| SinkExt::<u64>::buffer(s, 2), |x| {
            let mut x = x;
            if Sink::poll_ready(x.as_mut(), cx) == Poll::Ready(Ok(())) {
                let _ = x.start_send(1);
            }
            false
        }),
        46 => ret!(id, |s| SinkExt::<u64>::sink_map_err(s, |e| e), |x| Sink::<u64>::poll_ready(x, cx) == Poll::Ready(Err(1))),
        47 => ret!(id, |s| SinkExt::<u64>::sink_err_into::<u64>(s), |x| Sink::<u64>::poll_ready(x, cx) == Poll::Ready(Err(1))),
        48 => ret!(id, |s| SinkExt::<u64>::with(s, |v: u64| future::ready(Ok::<u64, u64>(v))), |x| Sink::<u64>::poll_ready(x, cx) == Poll::Ready(Err(1))),
        49 => ret!(id, |s| SinkExt::<u64>::with_flat_map(s, |v: u64| stream::iter(vec![Ok::<u64, u64>(v)])), |x| Sink::<u64>::poll_ready(x, cx) == Poll::Ready(Err(1))),
        50 => ret!(id, |s| futures::io::BufReader::with_capacity(3, s), |x| x.poll_fill_buf(cx).is_pending()),
        51 => ret!(id, |s| futures::io::BufWriter::with_capacity(3, s), |x| x.poll_write(cx, &[1, 2]).is_pending()),
        52 => ret!(id, |s| AsyncReadExt::take(s, 5), |x| x.poll_read(cx, &mut [0; 2]).is_pending()),
        53 => two!(|a, b| AsyncReadExt::chain(a, b), |x| x.poll_read(cx, &mut [0; 2]).is_pending()),
        17 => {
            let s = Src::new(case, id);
            let i = s.id;
            let mut w = StreamExt::catch_unwind(AssertUnwindSafe(s));
            for _ in 0..k {
                case.eq((w.get_ref().0.id, w.get_mut().0.id, Pin::new(&mut w).get_pin_mut().0.id), (i, i, i), "access");
                let _ = Pin::new(&mut w).poll_next(cx);
            }
            case.eq(w.into_inner().0.id, i, "into_inner");
        }
        55 => {
            let mut w = stream::iter(0..case.range(0, 3));
            let mut want = w.get_ref().clone();
            for _ in 0..k {
                case.eq(Pin::new(&mut w).poll_next(cx), Poll::Ready(want.next()), "item");
                case.eq(w.get_ref(), &want, "get_ref");
                if case.chance(1, 3) {
                    case.eq(w.get_mut().next(), want.next(), "get_mut");
                }
            }
            case.eq(w.into_inner(), want, "into_inner");
        }
        56 => ret!(id, |s| futures_test::stream::StreamTestExt::interleave_pending(s)),
        57 => ret!(id, |s| AsyncReadTestExt::limited(s, 3), |x| x.poll_read(cx, &mut [0; 2]).is_pending()),
        58 => ret!(id, |s| AsyncWriteTestExt::track_closed(s), |x| AsyncWrite::poll_close(x, cx).is_ready()),
        54 => {
            let s = Src::new(case, id);
            let i = s.id;
            let mut w = StreamExt::into_future(s);
            for _ in 0..k {
                case.eq(w.get_ref().map(|s| s.id), Some(i), "get_ref");
                case.eq(w.get_mut().map(|s| s.id), Some(i), "get_mut");
                case.eq(Pin::new(&mut w).get_pin_mut().map(|s| s.id), Some(i), "get_pin_mut");
                if let Poll::Ready((_, s)) = Pin::new(&mut w).poll(cx) {
                    case.eq(s.id, i, "the stream handed back");
                    case.check(FusedFuture::is_terminated(&w), || "is_terminated".into());
                    case.check(w.get_ref().is_none() && w.get_mut().is_none(), || "the stream is still there".into());
                    gone = true;
                    break;
                }
                case.check(!FusedFuture::is_terminated(&w), || "is_terminated".into());
            }
            case.eq(w.into_inner().map(|s| s.id), if gone { None } else { Some(i) }, "into_inner");
        }
        _ => {
            let (a, b) = (Src::new(case, id), case.below(1000));
            let i = a.id;
            let left = case.bool();
            match case.below(3) {
                0 => {
                    let e = if left { Either::Left(a) } else { Either::Right(a) };
                    case.eq(e.into_inner().id, i, "into_inner");
                }
                1 => {
                    let e: Either<(usize, Src<u64>), (usize, Src<u64>)> = if left { Either::Left((b, a)) } else { Either::Right((b, a)) };
                    let (x, e) = e.factor_first();
                    case.eq((x, matches!(e, Either::Left(_)), e.into_inner().id), (b, left, i), "factor_first");
                }
                _ => {
                    let e: Either<(Src<u64>, usize), (Src<u64>, usize)> = if left { Either::Left((a, b)) } else { Either::Right((a, b)) };
                    let (e, x) = e.factor_second();
                    case.eq((x, matches!(e, Either::Left(_)), e.into_inner().id), (b, left, i), "factor_second");
                }
            }
        }
    }
    case.no_leaks("accessors");
    case.nontrivial();
}

fn c32() -> Prop {
    Prop {
        id: "C32",
        rule: "Histories of up to 8 calls of every trait method through pointers, pins, Either, trait objects, the passing side of buffered readers/writers and type-changing adaptors, on an object whose every answer is generated; model = exactly this call reaches the object with the caller's waker, and its answer comes back. accessors: 59 kinds of wrappers, used up to 4 times, give access to and hand back the very source they were made from. Non-trivial: >2 calls; every accessor case.",
        subs: vec![
            sub("pointers", pointers, 800_000, 8_000_000).miri(48, 800),
            sub("other_side", other_side, 1_000_000, 10_000_000).miri(32, 500),
            sub("accessors", accessors, 1_500_000, 15_000_000).miri(64, 1000),
        ],
    }
}
