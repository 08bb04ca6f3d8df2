//! Conversions between futures 0.1 and the current traits. Objects of either
//! kind are wrapped in any number of conversion layers and must behave like
//! the object itself, with every wakeup passed on to the latest task.
use futures::compat::{
    AsyncRead01CompatExt, AsyncWrite01CompatExt, Compat, Compat01As03, Compat01As03Sink, CompatSink, Executor01CompatExt,
    Executor01Future, Future01CompatExt, Sink01CompatExt, Stream01CompatExt,
};
use futures::executor::LocalPool;
use futures::future::{FutureExt, TryFutureExt};
use futures::io::{AsyncRead as Read03, AsyncReadExt, AsyncWrite as Write03, AsyncWriteExt};
use futures::sink::{Sink as Sink03, SinkExt};
use futures::stream::{Stream as Stream03, TryStreamExt};
use futures::task::SpawnExt;
use futures_01::executor::{spawn as spawn01, Notify, Spawn};
use futures_01::future::{ExecuteError, Executor as Executor01};
use futures_01::{task as task01, Async, AsyncSink, Future as Future01, Poll as Poll01, Sink as Sink01, StartSend, Stream as Stream01};
use std::future::Future as Future03;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use tokio_io::{AsyncRead as Read01, AsyncWrite as Write01};
use vh::case::{Case, Tok};
use vh::iol::{bytes, is_injected, LRead, LWrite};
use vh::leaf::{LFut, LSink, LStream};
use vh::runner::{main_for, sub, Prop};
use vh::sim::{drive, drive_some, Poller, World};

// --- independent bridges for the two ends -------------------------------

struct TaskWaker(task01::Task);
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.0.notify()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.notify()
    }
}
/// A context for the current 0.1 task.
fn cx01<R>(f: impl FnOnce(&mut Context<'_>) -> R) -> R {
    let w = Waker::from(Arc::new(TaskWaker(task01::current())));
    f(&mut Context::from_waker(&w))
}
fn to01<T, E>(p: Poll<Result<T, E>>) -> Poll01<T, E> {
    match p {
        Poll::Pending => Ok(Async::NotReady),
        Poll::Ready(Ok(t)) => Ok(Async::Ready(t)),
        Poll::Ready(Err(e)) => Err(e),
    }
}
fn to03<T, E>(p: Poll01<T, E>) -> Poll<Result<T, E>> {
    match p {
        Ok(Async::NotReady) => Poll::Pending,
        Ok(Async::Ready(t)) => Poll::Ready(Ok(t)),
        Err(e) => Poll::Ready(Err(e)),
    }
}
struct WakerNotify(Waker);
impl Notify for WakerNotify {
    fn notify(&self, _: usize) {
        self.0.wake_by_ref()
    }
}
/// Runs `f` inside a 0.1 task that notifies the given waker.
fn enter01<R>(t: &mut Spawn<()>, cx: &mut Context<'_>, f: impl FnOnce() -> R) -> R {
    let n = Arc::new(WakerNotify(cx.waker().clone()));
    t.poll_fn_notify(&n, 0, |_| f())
}

/// A scripted leaf seen as an object of the old kind.
struct Old<T>(Pin<Box<T>>, bool);
impl<T> Old<T> {
    fn new(t: T) -> Self {
        Old(Box::pin(t), false)
    }
}
impl Future01 for Old<LFut<Result<Tok, Tok>>> {
    type Item = Tok;
    type Error = Tok;
    fn poll(&mut self) -> Poll01<Tok, Tok> {
        cx01(|cx| to01(self.0.as_mut().poll(cx)))
    }
}
impl Stream01 for Old<LStream<Result<Tok, Tok>>> {
    type Item = Tok;
    type Error = Tok;
    fn poll(&mut self) -> Poll01<Option<Tok>, Tok> {
        cx01(|cx| match self.0.as_mut().poll_next(cx) {
            Poll::Pending => Ok(Async::NotReady),
            Poll::Ready(None) => Ok(Async::Ready(None)),
            Poll::Ready(Some(Ok(t))) => Ok(Async::Ready(Some(t))),
            Poll::Ready(Some(Err(t))) => Err(t),
        })
    }
}
impl Sink01 for Old<LSink<Tok, Tok>> {
    type SinkItem = Tok;
    type SinkError = Tok;
    fn start_send(&mut self, t: Tok) -> StartSend<Tok, Tok> {
        self.0.case.check(!self.1, || "start_send of a 0.1 sink that is being closed".into());
        cx01(|cx| match self.0.as_mut().poll_ready(cx) {
            Poll::Pending => Ok(AsyncSink::NotReady(t)),
            Poll::Ready(Ok(())) => self.0.as_mut().start_send(t).map(|()| AsyncSink::Ready),
            Poll::Ready(Err(e)) => Err(e),
        })
    }
    fn poll_complete(&mut self) -> Poll01<(), Tok> {
        self.0.case.check(!self.1, || "poll_complete of a 0.1 sink that is being closed".into());
        cx01(|cx| to01(self.0.as_mut().poll_flush(cx)))
    }
    fn close(&mut self) -> Poll01<(), Tok> {
        self.1 = true;
        cx01(|cx| to01(self.0.as_mut().poll_close(cx)))
    }
}
fn block<T>(p: Poll<io::Result<T>>) -> io::Result<T> {
    match p {
        Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        Poll::Ready(r) => r,
    }
}
impl io::Read for Old<LRead> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        cx01(|cx| block(self.0.as_mut().poll_read(cx, b)))
    }
}
impl Read01 for Old<LRead> {}
impl io::Write for Old<LWrite> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        cx01(|cx| block(self.0.as_mut().poll_write(cx, b)))
    }
    fn flush(&mut self) -> io::Result<()> {
        cx01(|cx| block(self.0.as_mut().poll_flush(cx)))
    }
}
impl Write01 for Old<LWrite> {
    fn shutdown(&mut self) -> Poll01<(), io::Error> {
        cx01(|cx| to01(self.0.as_mut().poll_close(cx)))
    }
}

enum Any<N, O> {
    New(N),
    Old(O),
}
type NFut = Pin<Box<dyn Future03<Output = Result<Tok, Tok>> + Send>>;
type OFut = Box<dyn Future01<Item = Tok, Error = Tok> + Send>;
type NStream = Pin<Box<dyn Stream03<Item = Result<Tok, Tok>> + Send>>;
type OStream = Box<dyn Stream01<Item = Tok, Error = Tok> + Send>;
type NSink = Pin<Box<dyn Sink03<Tok, Error = Tok>>>;
type OSink = Box<dyn Sink01<SinkItem = Tok, SinkError = Tok>>;
type NRead = Pin<Box<dyn Read03>>;
type ORead = Box<dyn Read01>;
type NWrite = Pin<Box<dyn Write03>>;
type OWrite = Box<dyn Write01>;

/// Everything a poll left behind must be gone.
fn no_wakers_left(case: &Case, p: Poller) {
    let flag = p.flag.clone();
    drop(p);
    case.eq(Arc::strong_count(&flag), 1, "wakers left after everything was dropped, plus one");
}

fn layers(case: &Case) -> usize {
    case.weighted(&[0, 5, 4, 2, 1])
}

fn run_fut(case: &Case) {
    let world = World::new(case);
    let v = case.below(50) as u64;
    let ok = case.chance(3, 4);
    let out = if ok { Ok(case.tok(v)) } else { Err(case.tok(v)) };
    let leaf = LFut::gen(&world, "leaf", out);
    let gates = leaf.n_gates();
    let st = leaf.st.clone();
    let mut f: Any<NFut, OFut> = if case.bool() { Any::New(Box::pin(leaf)) } else { Any::Old(Box::new(Old::new(leaf))) };
    let n = layers(case);
    for _ in 0..n {
        f = match f {
            Any::New(f) => Any::Old(if case.bool() { Box::new(f.compat()) } else { Box::new(Compat::new(f)) }),
            Any::Old(f) => Any::New(if case.bool() {
                Box::pin(Future01CompatExt::compat(f))
            } else {
                let mut c = Compat01As03::new(f);
                let _ = c.get_ref();
                let _ = c.get_mut();
                Box::pin(Compat01As03::new(c.into_inner()))
            }),
        };
    }
    let mut p = Poller::new(case);
    let mut t = spawn01(());
    let budget = if case.chance(1, 6) { case.range(0, 4) } else { usize::MAX };
    let r = drive_some(&mut p, &world, "future", budget, |cx| match &mut f {
        Any::New(f) => f.as_mut().poll(cx),
        Any::Old(f) => enter01(&mut t, cx, || to03(f.poll())),
    });
    match &r {
        Some(r) => {
            let got = r.as_ref().map(|t| t.v).map_err(|t| t.v);
            case.eq(got, if ok { Ok(v) } else { Err(v) }, "output of the future");
            case.check(st.done(), || "completed before the future inside".into());
        }
        None => case.label("gave_up"),
    }
    if gates > 0 && n > 1 {
        case.nontrivial();
    }
    drop((r, f, t));
    case.check(st.dropped(), || "the future inside was not dropped".into());
    world.clear();
    no_wakers_left(case, p);
    case.no_leaks("future");
}

fn run_stream(case: &Case) {
    let world = World::new(case);
    let want: Vec<Result<u64, u64>> = case.vec(5, |c| {
        let v = c.below(50) as u64;
        if c.chance(1, 4) {
            Err(v)
        } else {
            Ok(v)
        }
    });
    let items: Vec<_> = want.iter().map(|m| m.map(|v| case.tok(v)).map_err(|v| case.tok(v))).collect();
    let leaf = LStream::gen(&world, "leaf", items);
    let mut s: Any<NStream, OStream> = if case.bool() { Any::New(Box::pin(leaf)) } else { Any::Old(Box::new(Old::new(leaf))) };
    let n = layers(case);
    for _ in 0..n {
        s = match s {
            Any::New(s) => Any::Old(if case.bool() { Box::new(TryStreamExt::compat(s)) } else { Box::new(Compat::new(s)) }),
            Any::Old(s) => Any::New(match case.below(3) {
                0 => Box::pin(Stream01CompatExt::compat(s)),
                1 => Box::pin(Compat01As03::new(s)),
                _ => Box::pin(Compat01As03Sink::<_, u8>::new(s)),
            }),
        };
    }
    let mut p = Poller::new(case);
    let mut t = spawn01(());
    let mut got = vec![];
    let stop = if case.chance(1, 4) { case.below(want.len() + 1) } else { usize::MAX };
    while got.len() < stop {
        let r = drive(&mut p, &world, "stream", |cx| match &mut s {
            Any::New(s) => s.as_mut().poll_next(cx),
            Any::Old(s) => enter01(&mut t, cx, || match s.poll() {
                Ok(Async::NotReady) => Poll::Pending,
                Ok(Async::Ready(x)) => Poll::Ready(x.map(Ok)),
                Err(e) => Poll::Ready(Some(Err(e))),
            }),
        });
        match r {
            None => {
                case.eq(&got, &want, "items of the stream");
                break;
            }
            Some(r) => got.push(r.as_ref().map(|t| t.v).map_err(|t| t.v)),
        }
    }
    case.check(want.starts_with(&got), || format!("items {got:?}, want {want:?}"));
    if got.len() >= 2 && n > 1 {
        case.nontrivial();
    }
    drop((s, t));
    world.clear();
    no_wakers_left(case, p);
    case.no_leaks("stream");
}

fn run_sink(case: &Case) {
    let world = World::new(case);
    let mut leaf: LSink<Tok, Tok> = LSink::new(&world, "leaf");
    let fails = case.chance(1, 4);
    if fails {
        leaf = leaf.failing(case.below(3), case.range(1, 4) as u8, case.tok(5000));
    }
    let st = leaf.st.clone();
    let mut s: Any<NSink, OSink> = if case.bool() { Any::New(Box::pin(leaf)) } else { Any::Old(Box::new(Old::new(leaf))) };
    let n = layers(case);
    for _ in 0..n {
        s = match s {
            Any::New(s) => Any::Old(if case.bool() {
                Box::new(SinkExt::<Tok>::compat(s))
            } else {
                let mut c: CompatSink<NSink, Tok> = CompatSink::new(s);
                let _ = c.get_ref();
                let _ = c.get_mut();
                Box::new(CompatSink::new(c.into_inner()))
            }),
            Any::Old(s) => Any::New(if case.bool() {
                Box::pin(s.sink_compat())
            } else {
                let mut c: Compat01As03Sink<OSink, Tok> = Compat01As03Sink::new(s);
                let _ = c.get_ref();
                let _ = c.get_mut();
                Box::pin(Compat01As03Sink::new(c.into_inner()))
            }),
        };
    }
    let mut p = Poller::new(case);
    let mut t = spawn01(());
    let mut acc: Vec<u64> = vec![];
    let mut errors = 0;
    let check = |acc: &[u64], all: bool| {
        let s = st.lock().unwrap();
        let got: Vec<u64> = s.got.iter().map(|t| t.v).collect();
        case.check(acc.starts_with(&got), || format!("sink received {got:?} of {acc:?}"));
        if all {
            case.eq(&got[..], acc, "after flushing, items received");
            case.eq(s.flushed, acc.len(), "items flushed");
        }
    };
    let mut dead = false;
    for v in 0..case.range(1, 8) as u64 {
        p.set_woken();
        let budget = if case.chance(1, 6) { case.range(1, 4) } else { usize::MAX };
        if case.chance(1, 4) {
            case.log(|| "flush".into());
            match drive_some(&mut p, &world, "flush", budget, |cx| match &mut s {
                Any::New(s) => s.as_mut().poll_flush(cx),
                Any::Old(s) => enter01(&mut t, cx, || to03(s.poll_complete())),
            }) {
                Some(Ok(())) => check(&acc, true),
                Some(Err(e)) => {
                    errors += 1;
                    case.eq(e.v, 5000u64, "error");
                    dead = true;
                    break;
                }
                None => {}
            }
        } else {
            case.log(|| format!("send {v}"));
            let mut item = Some(case.tok(v));
            let id = item.as_ref().unwrap().id;
            let r = drive_some(&mut p, &world, "send", budget, |cx| match &mut s {
                Any::New(s) => match s.as_mut().poll_ready(cx) {
                    Poll::Ready(Ok(())) => Poll::Ready(s.as_mut().start_send(item.take().unwrap())),
                    r => r,
                },
                Any::Old(s) => enter01(&mut t, cx, || match s.start_send(item.take().unwrap()) {
                    Ok(AsyncSink::Ready) => Poll::Ready(Ok(())),
                    Ok(AsyncSink::NotReady(i)) => {
                        case.eq(i.id, id, "item handed back");
                        item = Some(i);
                        Poll::Pending
                    }
                    Err(e) => Poll::Ready(Err(e)),
                }),
            });
            match r {
                Some(Ok(())) => acc.push(v),
                Some(Err(e)) => {
                    errors += 1;
                    case.eq(e.v, 5000u64, "error");
                    dead = true;
                    break;
                }
                None => {}
            }
        }
        check(&acc, false);
    }
    if !dead && case.chance(5, 6) {
        p.set_woken();
        case.log(|| "close".into());
        let r = drive(&mut p, &world, "close", |cx| match &mut s {
            Any::New(s) => s.as_mut().poll_close(cx),
            Any::Old(s) => enter01(&mut t, cx, || to03(s.close())),
        });
        match r {
            Ok(()) => {
                check(&acc, true);
                case.check(st.lock().unwrap().closed, || "closed, but the sink inside is not".into());
                case.eq(errors, st.lock().unwrap().errors, "errors reported");
            }
            Err(e) => {
                errors += 1;
                case.eq(e.v, 5000u64, "error");
            }
        }
    }
    case.eq(errors <= st.lock().unwrap().errors, true, "no error out of nowhere");
    if acc.len() >= 2 && n > 1 {
        case.nontrivial();
    }
    case.label_if(errors > 0, "error");
    drop((s, t));
    st.lock().unwrap().got.clear();
    world.clear();
    no_wakers_left(case, p);
    case.no_leaks("sink");
}

fn run_read(case: &Case) {
    let world = World::new(case);
    let data = bytes(case, 20);
    let leaf = LRead::new(&world, "reader", data.clone(), case.chance(1, 2));
    let st = leaf.st.clone();
    let mut s: Any<NRead, ORead> = if case.bool() { Any::New(Box::pin(leaf)) } else { Any::Old(Box::new(Old::new(leaf))) };
    let n = layers(case);
    for _ in 0..n {
        s = match s {
            Any::New(s) => Any::Old(Box::new(AsyncReadExt::compat(s))),
            Any::Old(s) => Any::New(Box::pin(AsyncRead01CompatExt::compat(s))),
        };
    }
    let mut p = Poller::new(case);
    let mut t = spawn01(());
    let (mut got, mut errors) = (vec![], 0);
    loop {
        let len = case.range(1, 9);
        let mut b = vec![0xAA; len];
        let r = drive(&mut p, &world, "read", |cx| match &mut s {
            Any::New(s) => s.as_mut().poll_read(cx, &mut b),
            Any::Old(s) => enter01(&mut t, cx, || to03(s.poll_read(&mut b))),
        });
        match r {
            Ok(0) => break,
            Ok(n) => {
                case.check(n <= len, || "read more than asked for".into());
                case.check(b[n..].iter().all(|x| *x == 0xAA), || "bytes behind those read changed".into());
                got.extend_from_slice(&b[..n]);
            }
            Err(e) => {
                case.check(is_injected(&e), || format!("error {e}"));
                errors += 1;
            }
        }
        case.eq(errors, st.lock().unwrap().errors, "errors reported");
        case.eq(got.len(), st.lock().unwrap().pos, "position");
    }
    case.eq(&got, &data, "bytes read");
    if data.len() >= 4 && n > 1 {
        case.nontrivial();
    }
    drop((s, t));
    world.clear();
    no_wakers_left(case, p);
    case.no_leaks("reader");
}

fn run_write(case: &Case) {
    let world = World::new(case);
    let leaf = LWrite::new(&world, case.chance(1, 2), false);
    let st = leaf.st.clone();
    let mut s: Any<NWrite, OWrite> = if case.bool() { Any::New(Box::pin(leaf)) } else { Any::Old(Box::new(Old::new(leaf))) };
    let n = layers(case);
    for _ in 0..n {
        s = match s {
            Any::New(s) => Any::Old(Box::new(AsyncWriteExt::compat_write(s))),
            Any::Old(s) => Any::New(Box::pin(AsyncWrite01CompatExt::compat(s))),
        };
    }
    let mut p = Poller::new(case);
    let mut t = spawn01(());
    let (mut acc, mut errors) = (vec![], 0);
    for _ in 0..case.range(1, 8) {
        p.set_woken();
        let b = bytes(case, 8);
        let budget = if case.chance(1, 6) { case.range(1, 4) } else { usize::MAX };
        let flush = case.chance(1, 3);
        let r = drive_some(&mut p, &world, "write", budget, |cx| match &mut s {
            Any::New(s) if flush => s.as_mut().poll_flush(cx).map_ok(|()| 0),
            Any::Old(s) if flush => enter01(&mut t, cx, || to03(s.poll_flush()).map_ok(|()| 0)),
            Any::New(s) => s.as_mut().poll_write(cx, &b),
            Any::Old(s) => enter01(&mut t, cx, || to03(s.poll_write(&b))),
        });
        match r {
            Some(Ok(n)) => {
                case.check(n <= b.len(), || "wrote more than given".into());
                acc.extend_from_slice(&b[..n]);
                if flush {
                    case.eq(st.lock().unwrap().flushed, acc.len(), "bytes flushed");
                }
            }
            Some(Err(e)) => {
                case.check(is_injected(&e), || format!("error {e}"));
                errors += 1;
            }
            None => case.label("gave_up"),
        }
        case.eq(errors, st.lock().unwrap().errors, "errors reported");
        case.eq(&st.lock().unwrap().got, &acc, "bytes written");
    }
    p.set_woken();
    loop {
        let r = drive(&mut p, &world, "close", |cx| match &mut s {
            Any::New(s) => s.as_mut().poll_close(cx),
            Any::Old(s) => enter01(&mut t, cx, || to03(s.shutdown())),
        });
        match r {
            Ok(()) => break,
            Err(e) => case.check(is_injected(&e), || format!("error {e}")),
        }
    }
    case.check(st.lock().unwrap().closed, || "closed, but the writer inside is not".into());
    if acc.len() >= 4 && n > 1 {
        case.nontrivial();
    }
    drop((s, t));
    world.clear();
    no_wakers_left(case, p);
    case.no_leaks("writer");
}

type Queue = Arc<Mutex<Vec<Executor01Future>>>;
#[derive(Clone)]
struct Ex {
    q: Queue,
    refuse: bool,
}
impl Executor01<Executor01Future> for Ex {
    fn execute(&self, f: Executor01Future) -> Result<(), ExecuteError<Executor01Future>> {
        if self.refuse {
            return Err(ExecuteError::new(futures_01::future::ExecuteErrorKind::Shutdown, f));
        }
        self.q.lock().unwrap().push(f);
        Ok(())
    }
}

fn run_exec(case: &Case) {
    let world = World::new(case);
    let done = Arc::new(Mutex::new(vec![]));
    let n = case.range(1, 4) as u64;
    if case.bool() {
        // New tasks on an old executor.
        let refuse = case.chance(1, 5);
        let q: Queue = Default::default();
        let ex = Ex { q: q.clone(), refuse };
        let sp = ex.compat();
        for i in 0..n {
            let (d, c) = (done.clone(), case.clone());
            let f = LFut::gen(&world, format!("task{i}"), case.tok(i)).map(move |t| {
                let _ = &c;
                d.lock().unwrap().push(t.v)
            });
            let r = if case.bool() { sp.spawn(f) } else { sp.clone().spawn(f) };
            case.eq(r.is_err(), refuse, "spawning refused");
            if let Err(e) = r {
                case.check(e.is_shutdown(), || "not a shutdown error".into());
            }
        }
        let mut tasks: Vec<_> = q.lock().unwrap().drain(..).map(|f| (f, Poller::new(case), spawn01(()))).collect();
        case.eq(tasks.len() as u64, if refuse { 0 } else { n }, "tasks that arrived");
        while !tasks.is_empty() {
            let i = case.below(tasks.len());
            let (f, p, t) = &mut tasks[i];
            if drive_some(p, &world, "task", case.range(1, 5), |cx| enter01(t, cx, || to03(f.poll()))).is_some() {
                drop(tasks.remove(i));
            } else if !case.chance(15, 16) {
                case.label("gave_up");
                drop(tasks.remove(i));
                done.lock().unwrap().push(u64::MAX);
            }
        }
        if refuse {
            case.label("refused");
            case.eq(done.lock().unwrap().len(), 0, "tasks run");
        } else {
            case.eq(done.lock().unwrap().len() as u64, n, "tasks run");
        }
    } else {
        // Old tasks on a new executor.
        let mut pool = LocalPool::new();
        let ex = SpawnExt::compat(pool.spawner());
        for i in 0..n {
            let d = done.clone();
            let ok = case.bool();
            let out = if ok { Ok(case.tok(i)) } else { Err(case.tok(i)) };
            let f = Old::new(LFut::gen(&world, format!("task{i}"), out)).then(move |r| {
                d.lock().unwrap().push(r.as_ref().map_or_else(|e| e.v, |t| t.v));
                r.map(|_| ()).map_err(|_| ())
            });
            case.check(ex.execute(f).is_ok(), || "spawning refused".into());
        }
        loop {
            pool.run_until_stalled();
            if !world.fire_some() {
                break;
            }
        }
        let mut d = done.lock().unwrap().clone();
        d.sort();
        case.eq(d, (0..n).collect::<Vec<_>>(), "tasks run to completion");
        drop(ex);
        drop(pool);
    }
    if n >= 2 {
        case.nontrivial();
    }
    world.clear();
    case.no_leaks("executors");
}

fn main() {
    main_for(vec![Prop {
        id: "C31",
        rule: "A scripted future, stream, sink, reader or writer, of the old (0.1) or the new kind, wrapped in 1 to 4 conversion layers and driven from an old or a new task which is polled only when the waker of its latest poll was woken; the oracle is the scripted object itself (outputs, items, errors, bytes, flush and close state), no leftover wakers, no leaks. exec: tasks spawned on executors of the other kind. Non-trivial: two or more layers and an object that waits or has two or more items.",
        subs: vec![
            sub("future", run_fut, 3_000_000, 30_000_000),
            sub("stream", run_stream, 3_000_000, 30_000_000),
            sub("sink", run_sink, 4_000_000, 40_000_000),
            sub("read", run_read, 2_000_000, 20_000_000),
            sub("write", run_write, 2_000_000, 20_000_000),
            sub("exec", run_exec, 1_000_000, 10_000_000),
        ],
    }]);
}
