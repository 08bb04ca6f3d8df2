//! Random compositions of everything: futures, streams, channels, locks and
//! sharing, nested at will. Compared with a model where the outcome is
//! determined; always: progress, single use and single drop of every part.
use futures::channel::{mpsc, oneshot};
use futures::future::{self, Either, Future, FutureExt, OptionFuture, TryFutureExt};
use futures::lock::Mutex as AMutex;
use futures::sink::{Sink, SinkExt};
use futures::stream::{self, FuturesOrdered, FuturesUnordered, Stream, StreamExt, TryStreamExt};
use std::collections::VecDeque;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use vh::case::{Case, Failed, Inconclusive, Injected, Tok};
use vh::leaf::{gates, Gate, LFut, LSink, LStream, LeafSt, SStep, SinkSt};
use vh::runner::{main_for, sub, Prop};
use vh::sim::{drive_some, Poller, World};

type R = Result<Tok, Tok>;
type M = Result<u64, u64>;
type BF = Pin<Box<dyn Future<Output = R> + Send>>;
type BS = Pin<Box<dyn Stream<Item = R> + Send>>;
type BK = Pin<Box<dyn Sink<R, Error = ()> + Send>>;
type KSt = Arc<Mutex<SinkSt<R>>>;

fn mixed(a: u64, b: u64) -> u64 {
    let mut x = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xC2B2AE3D27D4EB4F);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    (x ^ (x >> 32)) % 100_000
}
fn key(m: &M) -> u64 {
    match m {
        Ok(v) => *v,
        Err(v) => *v + 1_000_000,
    }
}
fn rkey(r: &R) -> u64 {
    key(&of(r))
}
fn of(r: &R) -> M {
    match r {
        Ok(t) => Ok(t.v),
        Err(t) => Err(t.v),
    }
}
fn to(c: &Case, m: M) -> R {
    match m {
        Ok(v) => Ok(c.tok(v)),
        Err(v) => Err(c.tok(v)),
    }
}
/// Ordered digest.
fn seq(ms: impl IntoIterator<Item = u64>) -> u64 {
    ms.into_iter().fold(17, mixed)
}
/// Digest that ignores the order.
fn bag(ms: impl IntoIterator<Item = u64>) -> u64 {
    ms.into_iter().fold(3, |a, k| (a + mixed(k, 5)) % 100_000)
}

/// The future of one step of an adaptor; it, or the closure making it, may panic.
fn step<T>(w: &(World, bool), name: &'static str, out: T) -> LFut<T> {
    if w.1 {
        let c = &w.0.case;
        if c.chance(1, 24) {
            c.log(|| format!("  {name}: closure panics"));
            std::panic::panic_any(Injected(0))
        }
        if c.chance(1, 24) {
            return LFut::panicking(&w.0, name, gates(&w.0), 0);
        }
    }
    LFut::gen(&w.0, name, out)
}

/// Both, as parts of one task or each woken on its own.
fn beside<A: Send + 'static, B: Send + 'static>(
    c: &Case,
    a: impl Future<Output = A> + Send + 'static,
    b: impl Future<Output = B> + Send + 'static,
) -> Pin<Box<dyn Future<Output = (A, B)> + Send>> {
    if c.bool() {
        return Box::pin(future::join(a, b));
    }
    let mut set: FuturesUnordered<Pin<Box<dyn Future<Output = Either<A, B>> + Send>>> = FuturesUnordered::new();
    if c.bool() {
        set.push(Box::pin(a.map(Either::Left)));
        set.push(Box::pin(b.map(Either::Right)));
    } else {
        set.push(Box::pin(b.map(Either::Right)));
        set.push(Box::pin(a.map(Either::Left)));
    }
    Box::pin(async move {
        let (mut a, mut b) = (None, None);
        while let Some(r) = set.next().await {
            match r {
                Either::Left(x) => a = Some(x),
                Either::Right(x) => b = Some(x),
            }
        }
        (a.unwrap(), b.unwrap())
    })
}

/// What a stream is expected to give (`None`: not determined).
struct SM {
    items: Option<Vec<M>>,
    ordered: bool,
}
impl SM {
    fn digest(&self) -> Option<u64> {
        let it = self.items.as_ref()?.iter().map(key);
        Some(if self.ordered { seq(it) } else { bag(it) })
    }
}
fn digest(ordered: bool, ks: Vec<u64>) -> u64 {
    if ordered {
        seq(ks)
    } else {
        bag(ks)
    }
}

/// What a fallible reduction of all items gives: the first error, or the digest.
fn try_seq(m: SM) -> Option<M> {
    let errs: Vec<u64> = m.items.as_ref()?.iter().filter_map(|m| m.err()).collect();
    match errs.len() {
        0 => m.digest().map(Ok),
        n if n == 1 || m.ordered => Some(Err(errs[0])),
        _ => None,
    }
}

struct T {
    case: Case,
    world: World,
    panics: bool,
    next: u64,
    size: usize,
    leaves: Vec<Arc<LeafSt>>,
    ops: Vec<&'static str>,
}

impl T {
    fn id(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    fn op(&mut self, s: &'static str) {
        self.case.log(|| format!("node {s} ({})", self.next));
        self.ops.push(s);
    }
    fn leaf_m(&mut self) -> (LFut<R>, Option<M>) {
        let c = self.case.clone();
        let id = self.id();
        let m: M = if c.chance(1, 4) { Err(id) } else { Ok(id) };
        let g = if c.chance(1, 4) { VecDeque::new() } else { gates(&self.world) };
        let name = format!("f{id}");
        let panics = self.panics && c.chance(1, 6);
        let f = if panics {
            LFut::panicking(&self.world, name, g, id)
        } else {
            LFut::new(&self.world, name, g, to(&c, m))
        };
        self.leaves.push(f.st.clone());
        (f, if self.panics { None } else { Some(m) })
    }
    fn leaf(&mut self) -> (BF, Option<M>) {
        let (f, m) = self.leaf_m();
        (Box::pin(f), m)
    }
    fn fut(&mut self, d: usize) -> (BF, Option<M>) {
        let c = self.case.clone();
        if d == 0 || self.size == 0 || c.chance(1, 8) {
            return self.leaf();
        }
        self.size -= 1;
        let id = self.id();
        let tk = c.clone();
        match c.below(45) {
            0 => {
                let (a, m) = self.fut(d - 1);
                (Box::pin(a.map(move |r| Ok(tk.tok(mixed(id, rkey(&r)))))), m.map(|m| Ok(mixed(id, key(&m)))))
            }
            1 => {
                self.op("then");
                let (a, m) = self.fut(d - 1);
                let (b, n) = self.fut(d - 1);
                (
                    Box::pin(a.then(move |r| b.map(move |s| Ok(tk.tok(mixed(rkey(&r), rkey(&s))))))),
                    m.and_then(|m| n.map(|n| Ok(mixed(key(&m), key(&n))))),
                )
            }
            2 => {
                self.op("and_then");
                let (a, m) = self.fut(d - 1);
                let (b, n) = self.fut(d - 1);
                let f: BF = Box::pin(a.and_then(move |_| b));
                (
                    f,
                    match m {
                        Some(Ok(_)) => n,
                        m => m,
                    },
                )
            }
            3 => {
                self.op("or_else");
                let (a, m) = self.fut(d - 1);
                let (b, n) = self.fut(d - 1);
                (
                    Box::pin(a.or_else(move |_| b)),
                    match m {
                        Some(Err(_)) => n,
                        m => m,
                    },
                )
            }
            4 | 5 => {
                self.op("join");
                let (a, m) = self.fut(d - 1);
                let (b, n) = self.fut(d - 1);
                let k = c.below(3);
                let f: BF = match k {
                    0 => Box::pin(beside(&c, a, b).map(move |(x, y)| Ok(tk.tok(mixed(rkey(&x), rkey(&y)))))),
                    1 => Box::pin(async move {
                        let (x, y) = futures::join!(a, b);
                        Ok(tk.tok(mixed(rkey(&x), rkey(&y))))
                    }),
                    _ => Box::pin(future::join_all([a, b]).map(move |v| Ok(tk.tok(mixed(rkey(&v[0]), rkey(&v[1])))))),
                };
                (f, m.and_then(|m| n.map(|n| Ok(mixed(key(&m), key(&n))))))
            }
            6 => {
                self.op("try_join");
                let (a, m) = self.fut(d - 1);
                let (b, n) = self.fut(d - 1);
                let f: BF = if c.bool() {
                    Box::pin(future::try_join(a, b).map_ok(move |(x, y)| tk.tok(mixed(x.v, y.v))))
                } else {
                    Box::pin(async move {
                        let (x, y) = futures::try_join!(a, b)?;
                        Ok(tk.tok(mixed(x.v, y.v)))
                    })
                };
                let m = match (m, n) {
                    (Some(Ok(x)), Some(Ok(y))) => Some(Ok(mixed(x, y))),
                    (Some(Err(e)), Some(Ok(_))) | (Some(Ok(_)), Some(Err(e))) => Some(Err(e)),
                    _ => None,
                };
                (f, m)
            }
            7 => {
                self.op("join_all");
                let (v, ms) = self.many(d);
                let f: BF = Box::pin(future::join_all(v).map(move |v| Ok(tk.tok(seq(v.iter().map(rkey))))));
                (f, ms.map(|ms| Ok(seq(ms.iter().map(key)))))
            }
            8 => {
                self.op("try_join_all");
                let (v, ms) = self.many(d);
                let f: BF = Box::pin(future::try_join_all(v).map_ok(move |v| tk.tok(seq(v.iter().map(|t| t.v)))));
                let m = ms.and_then(|ms| {
                    let errs: Vec<u64> = ms.iter().filter_map(|m| m.err()).collect();
                    match errs.len() {
                        0 => Some(Ok(seq(ms.iter().map(key)))),
                        1 => Some(Err(errs[0])),
                        _ => None,
                    }
                });
                (f, m)
            }
            9 => {
                self.op("select");
                let (a, m) = self.fut(d - 1);
                let (b, n) = self.fut(d - 1);
                if c.bool() {
                    // Both, in whatever order they finish.
                    let f: BF = Box::pin(async move {
                        let (x, y) = match future::select(a, b).await {
                            Either::Left((x, b)) => (x, b.await),
                            Either::Right((y, a)) => (y, a.await),
                        };
                        Ok(tk.tok(bag([rkey(&x), rkey(&y)])))
                    });
                    (f, m.and_then(|m| n.map(|n| Ok(bag([key(&m), key(&n)])))))
                } else {
                    (Box::pin(future::select(a, b).map(|e| e.factor_first().0)), if m == n { m } else { None })
                }
            }
            10 => {
                self.op("select_all");
                let (mut v, ms) = self.many(d);
                let mut ms = ms;
                if v.is_empty() {
                    let (f, m) = self.leaf();
                    v.push(f);
                    ms = m.map(|m| vec![m]);
                }
                let f: BF = Box::pin(async move {
                    let mut out = vec![];
                    let mut v = v;
                    while !v.is_empty() {
                        let (r, _, rest) = future::select_all(v).await;
                        out.push(rkey(&r));
                        v = rest;
                    }
                    Ok(tk.tok(bag(out)))
                });
                (f, ms.map(|ms| Ok(bag(ms.iter().map(key)))))
            }
            11 => {
                self.op("select_ok");
                let (mut v, ms) = self.many(d);
                let mut ms = ms;
                if v.is_empty() {
                    let (f, m) = self.leaf();
                    v.push(f);
                    ms = m.map(|m| vec![m]);
                }
                let f: BF = Box::pin(future::select_ok(v).map_ok(|(t, _)| t));
                let m = ms.and_then(|ms| {
                    let oks: Vec<M> = ms.iter().copied().filter(|m| m.is_ok()).collect();
                    match (oks.len(), ms.len()) {
                        (1, _) => Some(oks[0]),
                        (0, 1) => Some(ms[0]),
                        _ => None,
                    }
                });
                (f, m)
            }
            12 => {
                self.op("shared");
                let (a, m) = self.fut(d - 1);
                let s = a.shared();
                let n = c.range(1, 3);
                let extra = s.clone();
                if c.bool() {
                    drop(extra);
                    let fs: Vec<_> = (0..n).map(|_| s.clone()).collect();
                    drop(s);
                    let f: BF = Box::pin(future::join_all(fs).map(move |v| Ok(tk.tok(seq(v.iter().map(rkey))))));
                    (f, m.map(|m| Ok(seq(std::iter::repeat(key(&m)).take(n)))))
                } else {
                    // A handle that gives up early must not take the others down.
                    let (b, n) = self.fut(d - 1);
                    let f: BF = Box::pin(async move {
                        let (x, y) = futures::join!(
                            async move {
                                match future::select(extra, b).await {
                                    Either::Left((_, b)) => b.await,
                                    Either::Right((y, _)) => y,
                                }
                            },
                            s
                        );
                        Ok(tk.tok(mixed(rkey(&x), rkey(&y))))
                    });
                    (f, m.and_then(|m| n.map(|n| Ok(mixed(key(&n), key(&m))))))
                }
            }
            13 => {
                self.op("remote_handle");
                let (a, m) = self.fut(d - 1);
                let (rem, h) = a.remote_handle();
                if c.chance(1, 4) {
                    // One that nobody waits for any more.
                    let (rem2, h2) = future::pending::<()>().remote_handle();
                    let f: BF = Box::pin(
                        beside(
                            &c,
                            rem2,
                            beside(&c, rem, h).map(move |((), r)| {
                                drop(h2);
                                r
                            }),
                        )
                        .map(|((), r)| r),
                    );
                    return (f, m);
                }
                let f: BF = if c.bool() {
                    Box::pin(beside(&c, rem, h).map(|((), r)| r))
                } else {
                    Box::pin(beside(&c, h, rem).map(|(r, ())| r))
                };
                (f, m)
            }
            14 => {
                self.op("abortable");
                let (a, m) = self.fut(d - 1);
                let (f, h) = future::abortable(a);
                if c.bool() {
                    drop(h);
                    (Box::pin(f.map(|r| r.unwrap())), m)
                } else {
                    let (b, _) = self.fut(d - 1);
                    let f: BF = Box::pin(
                        beside(
                            &c,
                            f,
                            b.map(move |_| {
                                h.abort();
                            }),
                        )
                        .map(move |(r, ())| r.unwrap_or_else(|_| Err(tk.tok(77)))),
                    );
                    (f, None)
                }
            }
            15 => {
                self.op("wrappers");
                let (a, m) = self.fut(d - 1);
                let f: BF = match c.below(8) {
                    0 => Box::pin(a.fuse()),
                    1 => Box::pin(a.left_future::<future::Ready<R>>()),
                    2 => Box::pin(OptionFuture::from(Some(a)).map(|o| o.unwrap())),
                    3 => Box::pin(future::lazy(move |_| a).flatten()),
                    4 => Box::pin(future::select(future::pending::<R>(), a).map(|e| e.factor_first().0)),
                    5 => Box::pin(async move {
                        let x = a.await?;
                        Ok(x)
                    }),
                    6 => Box::pin(a.into_stream().into_future().map(|(x, _)| x.unwrap())),
                    _ => {
                        let mut a = a;
                        Box::pin(future::poll_fn(move |cx| a.poll_unpin(cx)))
                    }
                };
                (f, m)
            }
            16 => {
                self.op("oneshot");
                let (a, m) = self.fut(d - 1);
                let (tx, rx) = oneshot::channel();
                if c.chance(1, 4) {
                    // One that learns that nobody listens any more.
                    let mut tx = tx;
                    let gone = async move { tx.cancellation().await };
                    let f: BF = Box::pin(
                        beside(
                            &c,
                            gone,
                            a.map(move |r| {
                                drop::<oneshot::Receiver<R>>(rx);
                                r
                            }),
                        )
                        .map(|((), r)| r),
                    );
                    return (f, m);
                }
                let send = a.map(move |r| {
                    let _ = tx.send(r);
                });
                let tk2 = tk.clone();
                let recv = rx.map(move |r| r.unwrap_or_else(|_| Err(tk2.tok(78))));
                let f: BF = if c.bool() {
                    Box::pin(beside(&c, send, recv).map(|((), r)| r))
                } else {
                    Box::pin(beside(&c, recv, send).map(|(r, ())| r))
                };
                (f, m)
            }
            17 | 18 => {
                self.op("mpsc");
                let n = c.range(1, 3);
                let cap = c.below(3);
                let bounded = c.bool();
                let mut sends: Vec<Pin<Box<dyn Future<Output = ()> + Send>>> = vec![];
                let mut all = Some(vec![]);
                let (tx, rx) = mpsc::channel(cap);
                let (utx, urx) = mpsc::unbounded();
                for _ in 0..n {
                    let (s, m) = self.stream(d - 1);
                    match (&mut all, m.items) {
                        (Some(v), Some(i)) => v.extend(i),
                        _ => all = None,
                    }
                    if bounded {
                        sends.push(Box::pin(s.forward(tx.clone().sink_map_err(|_| ())).map(|_| ())));
                    } else {
                        sends.push(Box::pin(s.forward(utx.clone().sink_map_err(|_| ())).map(|_| ())));
                    }
                }
                drop((tx, utx));
                let recv: Pin<Box<dyn Future<Output = Vec<u64>> + Send>> = if bounded {
                    drop(urx);
                    Box::pin(rx.map(|r| rkey(&r)).collect::<Vec<u64>>())
                } else {
                    drop(rx);
                    Box::pin(urx.map(|r| rkey(&r)).collect::<Vec<u64>>())
                };
                let sends = if c.bool() {
                    future::join_all(sends).map(|_| ()).left_future()
                } else {
                    sends.into_iter().collect::<FuturesUnordered<_>>().collect::<()>().right_future()
                };
                let f: BF = Box::pin(beside(&c, recv, sends).map(move |(v, _)| Ok(tk.tok(bag(v)))));
                (f, all.map(|v| Ok(bag(v.iter().map(key)))))
            }
            19 => {
                self.op("mutex");
                let (v, ms) = self.many(d);
                let mx = Arc::new(AMutex::new(vec![]));
                let users: Vec<_> = v
                    .into_iter()
                    .map(|f| {
                        let mx = mx.clone();
                        async move {
                            let mut g = mx.lock().await;
                            let r = f.await;
                            g.push(rkey(&r));
                        }
                    })
                    .collect();
                let f: BF = Box::pin(async move {
                    future::join_all(users).await;
                    let v = mx.lock().await.clone();
                    Ok(tk.tok(bag(v)))
                });
                (f, ms.map(|ms| Ok(bag(ms.iter().map(key)))))
            }
            20 => {
                self.op("catch_unwind");
                let (a, m) = self.fut(d - 1);
                let (f, m): (BF, _) = (
                    Box::pin(AssertUnwindSafe(a).catch_unwind().map(move |r| {
                        r.unwrap_or_else(|p| {
                            // A failed check inside is not ours to swallow.
                            if p.is::<Failed>() || p.is::<Inconclusive>() {
                                resume_unwind(p)
                            }
                            Err(tk.tok(79))
                        })
                    })),
                    m,
                );
                (f, m)
            }
            21 => {
                self.op("select!");
                let (a, m) = self.fut(d - 1);
                let (b, n) = self.fut(d - 1);
                let biased = c.bool();
                let f: BF = Box::pin(async move {
                    let (mut a, mut b) = (a.fuse(), b.fuse());
                    let mut out = vec![];
                    loop {
                        if biased {
                            futures::select_biased! {
                                x = a => out.push(rkey(&x)),
                                y = b => out.push(rkey(&y)),
                                complete => break,
                            }
                        } else {
                            futures::select! {
                                x = a => out.push(rkey(&x)),
                                y = b => out.push(rkey(&y)),
                                complete => break,
                            }
                        }
                    }
                    Ok(tk.tok(bag(out)))
                });
                (f, m.and_then(|m| n.map(|n| Ok(bag([key(&m), key(&n)])))))
            }
            22 => {
                self.op("for_each_concurrent");
                let (s, m) = self.stream(d - 1);
                let limit = *c.pick(&[None, Some(1), Some(2), Some(0)]);
                let out = Arc::new(Mutex::new(vec![]));
                let (o, w) = (out.clone(), (self.world.clone(), self.panics));
                let f: BF = Box::pin(
                    s.for_each_concurrent(limit, move |r| {
                        let o = o.clone();
                        step(&w, "each", ()).map(move |()| o.lock().unwrap().push(rkey(&r)))
                    })
                    .map(move |()| Ok(tk.tok(bag(out.lock().unwrap().drain(..).collect::<Vec<_>>())))),
                );
                (f, m.items.map(|i| Ok(bag(i.iter().map(key)))))
            }
            23 => {
                self.op("try_stream");
                let (s, m) = self.stream(d - 1);
                let one = c.bool();
                let f: BF = if one {
                    Box::pin(s.try_collect::<Vec<Tok>>().map_ok(move |v| tk.tok(bag(v.iter().map(|t| t.v)))))
                } else {
                    let w = (self.world.clone(), self.panics);
                    let o = Arc::new(Mutex::new(vec![]));
                    let o2 = o.clone();
                    Box::pin(
                        s.try_for_each_concurrent(Some(c.range(1, 3)), move |r: R| {
                            let o = o2.clone();
                            step(&w, "each", ()).map(move |()| r.map(|t| o.lock().unwrap().push(t.v)))
                        })
                        .map_ok(move |()| tk.tok(bag(o.lock().unwrap().drain(..).collect::<Vec<_>>()))),
                    )
                };
                let m = m.items.and_then(|i| {
                    let errs: Vec<u64> = i.iter().filter_map(|m| m.err()).collect();
                    match errs.len() {
                        0 => Some(Ok(bag(i.iter().map(key)))),
                        1 => Some(Err(errs[0])),
                        _ if one && m.ordered => Some(Err(errs[0])),
                        _ => None,
                    }
                });
                (f, m)
            }
            24 => {
                self.op("sink");
                // Items through sink adaptors into a channel.
                let (s, m) = self.stream(d - 1);
                let (tx, rx) = mpsc::channel::<R>(c.below(3));
                let w = (self.world.clone(), self.panics);
                let send: Pin<Box<dyn Future<Output = ()> + Send>> = match c.below(6) {
                    5 => Box::pin(async move {
                        let (mut s, mut tx) = (s, tx);
                        while let Some(r) = s.next().await {
                            if future::poll_fn(|cx| tx.poll_ready(cx)).await.is_err() || tx.start_send(r).is_err() {
                                break;
                            }
                        }
                    }),
                    0 => {
                        let mut k = tx.sink_map_err(|_| ()).buffer(c.below(3));
                        Box::pin(async move {
                            let mut s = s.map(Ok);
                            let _ = k.send_all(&mut s).await;
                            let _ = k.close().await;
                        })
                    }
                    1 => Box::pin(s.forward(tx.sink_map_err(|_| ()).with(move |r: R| step(&w, "with", Ok::<R, ()>(r)))).map(|_| ())),
                    2 => Box::pin(
                        s.forward(tx.sink_map_err(|_| ()).with_flat_map(move |r: R| stream::once(step(&w, "wfm", Ok::<R, ()>(r)))))
                            .map(|_| ()),
                    ),
                    3 => Box::pin(async move {
                        let (mut s, mut tx) = (s, tx);
                        while let Some(r) = s.next().await {
                            if tx.feed(r).await.is_err() || tx.flush().await.is_err() {
                                break;
                            }
                        }
                    }),
                    _ => {
                        let k = futures::sink::unfold(tx, move |mut tx, r: R| {
                            let g = step(&w, "unfold", ());
                            async move {
                                g.await;
                                tx.send(r).await.map_err(|_| ())?;
                                Ok::<_, ()>(tx)
                            }
                        });
                        Box::pin(s.forward(k).map(|_| ()))
                    }
                };
                let ordered = m.ordered;
                let recv: Pin<Box<dyn Future<Output = Vec<u64>> + Send>> = if c.bool() {
                    Box::pin(rx.map(|r| rkey(&r)).collect())
                } else {
                    Box::pin(async move {
                        let (mut rx, mut v) = (rx, vec![]);
                        while let Ok(r) = rx.recv().await {
                            v.push(rkey(&r));
                        }
                        v
                    })
                };
                let f: BF = Box::pin(
                    beside(&c, recv, send)
                        .map(move |(v, ())| Ok(tk.tok(digest(ordered, v)))),
                );
                (f, m.digest().map(Ok))
            }
            25 => {
                self.op("split");
                // The two halves of one object, used by two futures.
                let (s, m) = self.stream(d - 1);
                let (b, bm) = self.stream(d - 1);
                let both = Both { s, sent: Arc::new(Mutex::new(vec![])) };
                let sent = both.sent.clone();
                let (k, s) = both.split();
                let ordered = m.ordered;
                let f: BF = Box::pin(
                    beside(&c, s.map(|r| rkey(&r)).collect::<Vec<u64>>(), b.map(|r| rkey(&r)).forward(k)).map(move |(v, _)| {
                        Ok(tk.tok(mixed(digest(ordered, v), bag(sent.lock().unwrap().drain(..).collect::<Vec<_>>()))))
                    }),
                );
                let bd = bm.items.map(|i| bag(i.iter().map(key)));
                (f, m.digest().and_then(|x| bd.map(|y| Ok(mixed(x, y)))))
            }
            26 => {
                self.op("reduce");
                let (s, m) = self.stream(d - 1);
                let w = (self.world.clone(), self.panics);
                match c.below(5) {
                    0 => (Box::pin(s.count().map(move |n| Ok(tk.tok(n as u64)))), m.items.map(|i| Ok(i.len() as u64))),
                    1 => (
                        Box::pin(s.all(move |r| step(&w, "all", mixed(id, rkey(&r)) % 5 != 0)).map(move |b| Ok(tk.tok(b as u64)))),
                        m.items.map(|i| Ok(i.iter().all(|m| mixed(id, key(m)) % 5 != 0) as u64)),
                    ),
                    2 => (
                        Box::pin(s.any(move |r| step(&w, "any", mixed(id, rkey(&r)) % 5 == 0)).map(move |b| Ok(tk.tok(b as u64)))),
                        m.items.map(|i| Ok(i.iter().any(|m| mixed(id, key(m)) % 5 == 0) as u64)),
                    ),
                    3 => {
                        let (f, o) = (s.fuse().into_future(), m.ordered);
                        let tk2 = tk.clone();
                        let f: BF = Box::pin(f.then(move |(h, rest)| {
                            rest.map(|r| rkey(&r)).collect::<Vec<_>>().map(move |mut v| {
                                if let Some(h) = h {
                                    v.insert(0, rkey(&h));
                                }
                                Ok(tk2.tok(digest(o, v)))
                            })
                        }));
                        (f, m.digest().map(Ok))
                    }
                    _ => {
                        let f: BF = Box::pin(async move {
                            let (mut s, mut n) = (s, 0u64);
                            while s.try_next().await?.is_some() {
                                n += 1;
                            }
                            Ok(tk.tok(n))
                        });
                        let o = m.ordered;
                        (
                            f,
                            m.items.and_then(|i| {
                                let errs: Vec<u64> = i.iter().filter_map(|m| m.err()).collect();
                                match errs.len() {
                                    0 => Some(Ok(i.len() as u64)),
                                    n if n == 1 || o => Some(Err(errs[0])),
                                    _ => None,
                                }
                            }),
                        )
                    }
                }
            }
            27 => {
                self.op("try_select");
                let (a, m) = self.fut(d - 1);
                let (b, n) = self.fut(d - 1);
                // The first to finish, then the other.
                let f: BF = Box::pin(future::try_select(a, b).then(move |r| {
                    let (x, rest) = match r {
                        Ok(Either::Left((x, b))) => (Ok(x), b),
                        Ok(Either::Right((x, a))) => (Ok(x), a),
                        Err(Either::Left((e, b))) => (Err(e), b),
                        Err(Either::Right((e, a))) => (Err(e), a),
                    };
                    rest.map(move |y| Ok(tk.tok(bag([rkey(&x), rkey(&y)]))))
                }));
                (f, m.and_then(|m| n.map(|n| Ok(bag([key(&m), key(&n)])))))
            }
            28 => {
                self.op("flatten");
                let (a, m) = self.fut(d - 1);
                let (b, n) = self.fut(d - 1);
                if c.bool() {
                    let f: BF = Box::pin(a.map_ok(move |_| b).try_flatten());
                    (f, if let Some(Ok(_)) = m { n } else { m })
                } else {
                    let (s, sm) = self.stream(d - 1);
                    drop((b, n));
                    let o = sm.ordered;
                    let f: BF = Box::pin(
                        a.map(move |_| s).flatten_stream().map(|r| rkey(&r)).collect::<Vec<_>>().map(move |v| Ok(tk.tok(digest(o, v)))),
                    );
                    (f, m.and_then(|_| sm.digest().map(Ok)))
                }
            }
            29 => {
                self.op("guards");
                // Owned and mapped guards, held across waits.
                let (v, ms) = self.many(d);
                let mx = Arc::new(AMutex::new((0u64, vec![])));
                let users: FuturesUnordered<_> = v
                    .into_iter()
                    .enumerate()
                    .map(|(i, f)| {
                        let mx = mx.clone();
                        async move {
                            if i % 2 == 0 {
                                let mut g = mx.lock_owned().await;
                                let r = f.await;
                                g.1.push(rkey(&r));
                            } else {
                                let g = mx.lock().await;
                                let mut g = futures::lock::MutexGuard::map(g, |t| &mut t.1);
                                let r = f.await;
                                g.push(rkey(&r));
                            }
                        }
                    })
                    .collect();
                let f: BF = Box::pin(async move {
                    users.collect::<()>().await;
                    let v = mx.lock().await.1.clone();
                    Ok(tk.tok(bag(v)))
                });
                (f, ms.map(|ms| Ok(bag(ms.iter().map(key)))))
            }
            30 => {
                self.op("for_each");
                let (s, m) = self.stream(d - 1);
                let w = (self.world.clone(), self.panics);
                let out = Arc::new(Mutex::new(vec![]));
                let o = out.clone();
                let o2 = m.ordered;
                let fin = move |()| tk.tok(digest(o2, out.lock().unwrap().drain(..).collect()));
                if c.bool() {
                    let f: BF = Box::pin(
                        s.for_each(move |r| {
                            let o = o.clone();
                            step(&w, "each", ()).map(move |()| o.lock().unwrap().push(rkey(&r)))
                        })
                        .map(fin)
                        .map(Ok),
                    );
                    (f, m.digest().map(Ok))
                } else {
                    let f: BF = Box::pin(
                        s.try_for_each(move |r: R| {
                            let o = o.clone();
                            step(&w, "each", ()).map(move |()| r.map(|t| o.lock().unwrap().push(t.v)))
                        })
                        .map_ok(fin),
                    );
                    (f, try_seq(m))
                }
            }
            31 => {
                self.op("try_reduce");
                let (s, m) = self.stream(d - 1);
                let w = (self.world.clone(), self.panics);
                let o = m.ordered;
                match c.below(5) {
                    0 => {
                        let f: BF = Box::pin(
                            s.try_fold(vec![], move |mut v, r: R| {
                                step(
                                    &w,
                                    "try_fold",
                                    r.map(move |t| {
                                        v.push(t.v);
                                        v
                                    }),
                                )
                            })
                            .map_ok(move |v: Vec<u64>| tk.tok(digest(o, v))),
                        );
                        (f, try_seq(m))
                    }
                    1 => {
                        let f: BF =
                            Box::pin(s.map_ok(|t| vec![t.v]).try_concat().map_ok(move |v: Vec<u64>| tk.tok(digest(o, v))));
                        (f, try_seq(m))
                    }
                    2 => {
                        let f: BF =
                            Box::pin(s.map(|r| vec![rkey(&r)]).concat().map(move |v: Vec<u64>| Ok(tk.tok(digest(o, v)))));
                        (f, m.digest().map(Ok))
                    }
                    3 => {
                        let f: BF = Box::pin(
                            s.map(|r| (rkey(&r), rkey(&r)))
                                .unzip()
                                .map(move |(v, u): (Vec<u64>, Vec<u64>)| {
                                    Ok(tk.tok(mixed(digest(o, v), digest(o, u))))
                                }),
                        );
                        (f, m.digest().map(|x| Ok(mixed(x, x))))
                    }
                    _ => {
                        let all = c.bool();
                        let p = move |k: u64| (mixed(id, k) % 5 == 0) != all;
                        let f: BF = if all {
                            Box::pin(s.try_all(move |t: Tok| step(&w, "try_all", p(t.v))).map_ok(move |b| tk.tok(b as u64)))
                        } else {
                            Box::pin(s.try_any(move |t: Tok| step(&w, "try_any", p(t.v))).map_ok(move |b| tk.tok(b as u64)))
                        };
                        let m = m.items.and_then(|i| {
                            if !o {
                                return None;
                            }
                            for m in i {
                                match m {
                                    Err(e) => return Some(Err(e)),
                                    Ok(v) if p(v) != all => return Some(Ok(!all as u64)),
                                    _ => (),
                                }
                            }
                            Some(Ok(all as u64))
                        });
                        (f, m)
                    }
                }
            }
            32 => {
                self.op("select_next_some");
                let (a, m) = self.stream(d - 1);
                let (b, n) = self.stream(d - 1);
                let f: BF = Box::pin(async move {
                    let (mut a, mut b) = (a.fuse(), b.fuse());
                    let mut out = vec![];
                    loop {
                        futures::select! {
                            x = a.select_next_some() => out.push(rkey(&x)),
                            y = b.select_next_some() => out.push(rkey(&y)),
                            complete => break,
                        }
                    }
                    Ok(tk.tok(bag(out)))
                });
                let m = m.items.and_then(|x| n.items.map(|y| Ok(bag(x.iter().chain(&y).map(key)))));
                (f, m)
            }
            33 => {
                self.op("wrappers");
                let (a, m) = self.fut(d - 1);
                match c.below(6) {
                    0 => {
                        let (b, n) = self.fut(d - 1);
                        let f: BF = Box::pin(a.map_ok_or_else(move |_| b.left_future(), |t| future::ready(Ok(t)).right_future()).flatten());
                        (f, if let Some(Err(_)) = m { n } else { m })
                    }
                    1 => {
                        let f: BF = Box::pin(async move {
                            let mut a = Box::pin(future::maybe_done(a));
                            a.as_mut().await;
                            a.as_mut().take_output().unwrap()
                        });
                        (f, m)
                    }
                    2 => {
                        let f: BF = Box::pin(async move {
                            let mut a = Box::pin(future::try_maybe_done(a));
                            a.as_mut().await?;
                            Ok(a.as_mut().take_output().unwrap())
                        });
                        (f, m)
                    }
                    3 => {
                        let f: BF = Box::pin(async move {
                            let mut a = a;
                            loop {
                                match futures::poll!(&mut a) {
                                    std::task::Poll::Ready(r) => break r,
                                    std::task::Poll::Pending => futures::pending!(),
                                }
                            }
                        });
                        (f, m)
                    }
                    4 => (Box::pin(a.right_future::<future::Ready<R>>()), m),
                    _ => {
                        let f: BF = Box::pin(a.map(Ok::<R, ()>).unwrap_or_else(|_| unreachable!()));
                        (f, m)
                    }
                }
            }
            34 => {
                self.op("ping_pong");
                // Each item comes only after the one before was flushed.
                let n = c.below(6);
                let p = Pong { st: Arc::new(Mutex::new(PongSt::default())), n, w: self.world.clone() };
                let (s, mut k) = (p.clone(), PongSink { p: p.clone(), gate: None });
                let drive: Pin<Box<dyn Future<Output = Result<(), ()>> + Send>> = match c.below(4) {
                    0 => Box::pin(s.forward(k)),
                    1 => Box::pin(s.map(Ok).try_forward(k)),
                    2 => Box::pin(async move { k.send_all(&mut s.map(Ok)).await }),
                    _ => Box::pin(async move {
                        let mut s = s;
                        while let Some(r) = s.next().await {
                            k.send(r).await?;
                        }
                        Ok(())
                    }),
                };
                (Box::pin(drive.map(move |r| r.map(|()| tk.tok(n as u64)).map_err(|()| tk.tok(80)))), Some(Ok(n as u64)))
            }
            35 => {
                self.op("bilock");
                let (a, m) = self.fut(d - 1);
                let (b, n) = self.fut(d - 1);
                let (x, y) = futures::lock::BiLock::new(vec![]);
                let one = |l: futures::lock::BiLock<Vec<u64>>, f: BF| async move {
                    let mut g = l.lock().await;
                    let r = f.await;
                    g.push(rkey(&r));
                    drop(g);
                    l
                };
                let f: BF = Box::pin(beside(&c, one(x, a), one(y, b)).map(move |(x, y)| {
                    let v = x.reunite(y).map_err(|_| ()).unwrap();
                    Ok(tk.tok(bag(v)))
                }));
                (f, m.and_then(|m| n.map(|n| Ok(bag([key(&m), key(&n)])))))
            }
            36 | 37 => {
                self.op("with_never");
                // Beside something that never comes.
                let (a, m) = self.fut(d - 1);
                let never = || -> BF { Box::pin(future::pending::<R>()) };
                let f: BF = match c.below(9) {
                    0 => Box::pin(future::select(a, never()).map(|e| e.factor_first().0)),
                    1 => Box::pin(future::select(never(), a).map(|e| e.factor_first().0)),
                    2 => Box::pin(future::try_select(a, never()).map(|r| match r {
                        Ok(e) => Ok(e.factor_first().0),
                        Err(e) => Err(e.factor_first().0),
                    })),
                    3 => Box::pin(future::try_select(never(), a).map(|r| match r {
                        Ok(e) => Ok(e.factor_first().0),
                        Err(e) => Err(e.factor_first().0),
                    })),
                    4 => {
                        let mut v = vec![never(), never()];
                        v.insert(c.below(3), a);
                        Box::pin(future::select_all(v).map(|r| r.0))
                    }
                    5 => {
                        let mut v = vec![never(), never()];
                        v.insert(c.below(3), a);
                        Box::pin(async move {
                            let mut set: FuturesUnordered<_> = v.into_iter().collect();
                            set.next().await.unwrap()
                        })
                    }
                    6 => {
                        let mut v = vec![never(), never()];
                        // (It goes on after an error.)
                        let a = a.then(|r| future::ready(Ok::<R, Tok>(r)));
                        let mut v: Vec<Pin<Box<dyn Future<Output = Result<R, Tok>> + Send>>> =
                            v.drain(..).map(|f| Box::pin(f.map_ok(Ok)) as Pin<Box<dyn Future<Output = _> + Send>>).collect();
                        v.insert(c.below(3), Box::pin(a));
                        Box::pin(future::select_ok(v).map(|r| match r {
                            Ok((r, _)) => r,
                            Err(e) => Err(e),
                        }))
                    }
                    7 => {
                        let first = c.bool();
                        Box::pin(async move {
                            let (mut a, mut b) = (a.fuse(), future::pending::<R>());
                            if first {
                                futures::select! { x = a => x, y = b => y }
                            } else {
                                futures::select_biased! { y = b => y, x = a => x }
                            }
                        })
                    }
                    _ => {
                        let (f, h) = future::abortable(never());
                        Box::pin(
                            beside(
                                &c,
                                f,
                                a.map(move |r| {
                                    h.abort();
                                    r
                                }),
                            )
                            .map(|(_, r)| r),
                        )
                    }
                };
                (f, m)
            }
            38..=40 => {
                self.op("sinks");
                let (s, m) = self.stream(d - 1);
                let mut sts = vec![];
                let mut k = self.sink(d - 1, &mut sts);
                let o = m.ordered;
                let drive: Pin<Box<dyn Future<Output = bool> + Send>> = match c.below(7) {
                    6 => Box::pin(async move {
                        let mut s = s;
                        while let Some(r) = s.next().await {
                            if future::poll_fn(|cx| k.poll_ready_unpin(cx)).await.is_err() || k.start_send_unpin(r).is_err() {
                                return false;
                            }
                        }
                        future::poll_fn(|cx| k.poll_flush_unpin(cx)).await.is_ok()
                            && future::poll_fn(|cx| k.poll_close_unpin(cx)).await.is_ok()
                    }),
                    0 => Box::pin(s.forward(k).map(|r| r.is_ok())),
                    1 => Box::pin(s.map(Ok::<R, ()>).try_forward(k).map(|r| r.is_ok())),
                    2 => Box::pin(async move {
                        let mut s = s.map(Ok);
                        k.send_all(&mut s).await.is_ok() && k.close().await.is_ok()
                    }),
                    3 => Box::pin(async move {
                        let mut s = s;
                        while let Some(r) = s.next().await {
                            if k.send(r).await.is_err() {
                                return false;
                            }
                        }
                        k.close().await.is_ok()
                    }),
                    4 => Box::pin(async move {
                        let mut s = s;
                        while let Some(r) = s.next().await {
                            if k.feed(r).await.is_err() {
                                return false;
                            }
                        }
                        k.flush().await.is_ok() && k.close().await.is_ok()
                    }),
                    _ => {
                        let (a, _) = self.stream(d - 1);
                        let (kk, ss) = Two { s: a, k }.split();
                        let side = ss.collect::<Vec<R>>();
                        if c.bool() {
                            Box::pin(beside(&c, side, s.forward(kk)).map(|(_, r)| r.is_ok()))
                        } else {
                            Box::pin(beside(&c, s.forward(kk), side).map(|(r, _)| r.is_ok()))
                        }
                    }
                };
                let ck = c.clone();
                let n = sts.len();
                let f: BF = Box::pin(drive.map(move |ok| {
                    ck.check(ok, || "a sink that never fails failed".into());
                    let mut out = vec![];
                    for st in &sts {
                        let mut st = st.lock().unwrap();
                        // A sink that was still being made when there was nothing left to send never sees the close.
                        ck.check(st.closed || st.got.is_empty(), || "a sink was not closed".into());
                        ck.eq(st.flushed, st.got.len(), "items of a sink that were flushed");
                        out.push(digest(o, st.got.drain(..).map(|r| rkey(&r)).collect()));
                    }
                    Ok(tk.tok(seq(out)))
                }));
                (f, m.digest().map(|x| Ok(seq(std::iter::repeat(x).take(n)))))
            }
            _ => {
                self.op("collect");
                let (s, m) = self.stream(d - 1);
                let ordered = m.ordered;
                let w = (self.world.clone(), self.panics);
                let f: BF = match c.below(3) {
                    0 => Box::pin(s.collect::<Vec<R>>().map(move |v| Ok(tk.tok(digest(ordered, v.iter().map(rkey).collect()))))),
                    1 => Box::pin(
                        s.fold(vec![], move |mut v, r| {
                            v.push(rkey(&r));
                            step(&w, "fold", v)
                        })
                        .map(move |v| Ok(tk.tok(digest(ordered, v)))),
                    ),
                    _ => Box::pin(async move {
                        let mut s = s;
                        let mut v = vec![];
                        while let Some(r) = s.next().await {
                            v.push(rkey(&r));
                        }
                        Ok(tk.tok(digest(ordered, v)))
                    }),
                };
                let m = m.digest();
                (f, m.map(Ok))
            }
        }
    }
    /// A sink, and what arrives at each of its ends (all of it at each).
    fn sink(&mut self, d: usize, ends: &mut Vec<KSt>) -> BK {
        let c = self.case.clone();
        if d == 0 || self.size == 0 || c.chance(1, 4) {
            let id = self.id();
            let k = LSink::<R, ()>::new(&self.world, format!("k{id}"));
            ends.push(k.st.clone());
            return Box::pin(k);
        }
        self.size -= 1;
        let w = (self.world.clone(), self.panics);
        match c.below(10) {
            0 | 1 => {
                self.op("fanout");
                let a = self.sink(d - 1, ends);
                let b = self.sink(d - 1, ends);
                Box::pin(a.fanout(b))
            }
            2 => {
                self.op("sink_buffer");
                Box::pin(self.sink(d - 1, ends).buffer(c.below(4)))
            }
            3 => {
                self.op("sink_with");
                Box::pin(self.sink(d - 1, ends).with(move |r: R| step(&w, "with", Ok::<R, ()>(r))))
            }
            4 => {
                self.op("sink_with_flat_map");
                Box::pin(self.sink(d - 1, ends).with_flat_map(move |r: R| stream::once(step(&w, "wfm", Ok::<R, ()>(r)))))
            }
            5 => {
                self.op("sink_either");
                let a = self.sink(d - 1, ends);
                if c.bool() {
                    Box::pin(a.left_sink::<BK>())
                } else {
                    let e: Either<BK, BK> = Either::Right(a);
                    Box::pin(e)
                }
            }
            6 => {
                self.op("flatten_sink");
                let a = self.sink(d - 1, ends);
                match c.below(3) {
                    0 => Box::pin(LFut::gen(&w.0, "outer", Two { s: Box::pin(stream::empty()), k: a }).flatten_stream()),
                    _ => Box::pin(LFut::gen(&w.0, "outer", Ok::<BK, ()>(a)).flatten_sink()),
                }
            }
            7 => {
                self.op("sink_unfold");
                // Closing the adaptor does not close what the closure holds.
                let id = self.id();
                let k = LSink::<R, ()>::new(&self.world, format!("k{id}"));
                ends.push(k.st.clone());
                let k = futures::sink::unfold(Box::pin(k), move |mut k, r: R| {
                    let g = step(&w, "unfold", ());
                    async move {
                        g.await;
                        k.send(r).await?;
                        Ok::<_, ()>(k)
                    }
                });
                let last = ends.last().unwrap().clone();
                Box::pin(CloseMark { k: Box::pin(k), st: last })
            }
            8 => {
                self.op("sink_map_err");
                Box::pin(self.sink(d - 1, ends).sink_map_err(|_| 5u8).sink_map_err(|_| ()).sink_err_into::<()>())
            }
            _ => {
                self.op("sink_stream_adaptor");
                // Through the sink side of stream adaptors.
                let a = self.sink(d - 1, ends);
                let t = Two { s: Box::pin(stream::empty()), k: a };
                match c.below(3) {
                    0 => Box::pin(t.fuse()),
                    1 => Box::pin(t.take(3).peekable()),
                    _ => Box::pin(t.buffer(2).map(|r| r)),
                }
            }
        }
    }
    fn many(&mut self, d: usize) -> (Vec<BF>, Option<Vec<M>>) {
        let c = self.case.clone();
        let n = if c.chance(1, 24) { c.range(29, 34) } else { c.range(0, 4) };
        let mut v = vec![];
        let mut ms = Some(vec![]);
        for _ in 0..n {
            let (f, m) = if n > 10 { self.leaf() } else { self.fut(d - 1) };
            v.push(f);
            match (&mut ms, m) {
                (Some(v), Some(m)) => v.push(m),
                _ => ms = None,
            }
        }
        (v, ms)
    }
    fn stream_leaf(&mut self) -> (BS, SM) {
        let c = self.case.clone();
        let n = c.range(0, 5);
        let items: Vec<M> = (0..n)
            .map(|_| {
                let id = self.id();
                if c.chance(1, 6) {
                    Err(id)
                } else {
                    Ok(id)
                }
            })
            .collect();
        let mut script = VecDeque::new();
        for m in &items {
            while c.chance(1, 3) {
                script.push_back(SStep::Gate(Gate::gen(&self.world)));
            }
            if self.panics && c.chance(1, 24) {
                script.push_back(SStep::Panic(1));
            }
            script.push_back(SStep::Item(to(&c, *m)));
        }
        let id = self.id();
        let s = LStream::new(&self.world, format!("s{id}"), script);
        self.leaves.push(s.st.clone());
        (Box::pin(s), SM { items: if self.panics { None } else { Some(items) }, ordered: true })
    }
    fn stream(&mut self, d: usize) -> (BS, SM) {
        let c = self.case.clone();
        if d == 0 || self.size == 0 || c.chance(1, 6) {
            return self.stream_leaf();
        }
        self.size -= 1;
        let id = self.id();
        let w = (self.world.clone(), self.panics);
        match c.below(42) {
            0 => {
                self.op("chain");
                let (a, m) = self.stream(d - 1);
                let (b, n) = self.stream(d - 1);
                let ordered = m.ordered && n.ordered;
                (
                    Box::pin(a.chain(b)),
                    SM {
                        items: m.items.and_then(|mut x| {
                            n.items.map(|y| {
                                x.extend(y);
                                x
                            })
                        }),
                        ordered,
                    },
                )
            }
            1 | 2 => {
                self.op("merge");
                let n = c.range(1, 3);
                let mut all = Some(vec![]);
                let mut v = vec![];
                let mut ordered = n == 1;
                for _ in 0..n {
                    let (s, m) = self.stream(d - 1);
                    v.push(s);
                    ordered &= m.ordered;
                    match (&mut all, m.items) {
                        (Some(v), Some(i)) => v.extend(i),
                        _ => all = None,
                    }
                }
                let s: BS = match c.below(3) {
                    0 if n == 2 => {
                        let b = v.pop().unwrap();
                        let a = v.pop().unwrap();
                        Box::pin(stream::select(a, b))
                    }
                    1 => Box::pin(stream::iter(v).flatten_unordered(*c.pick(&[None, Some(1), Some(2)]))),
                    _ => Box::pin(stream::select_all(v)),
                };
                (s, SM { items: all, ordered })
            }
            3 => {
                self.op("then");
                let (a, m) = self.stream(d - 1);
                (Box::pin(a.then(move |r| step(&w, "then", r))), m)
            }
            4 => {
                self.op("filter");
                let (a, m) = self.stream(d - 1);
                let keep = move |k: u64| mixed(id, k) % 3 != 0;
                (
                    Box::pin(a.filter(move |r| step(&w, "filter", keep(rkey(r))))),
                    SM { items: m.items.map(|v| v.into_iter().filter(|m| keep(key(m))).collect()), ordered: m.ordered },
                )
            }
            5 => {
                self.op("buffered");
                let (a, m) = self.stream(d - 1);
                let n = c.range(1, 4);
                let s: BS = Box::pin(a.map(move |r| step(&w, "buffered", r)).buffered(n));
                (s, m)
            }
            6 => {
                self.op("buffer_unordered");
                let (a, m) = self.stream(d - 1);
                let n = c.range(1, 4);
                let s: BS = Box::pin(a.map(move |r| step(&w, "buffered", r)).buffer_unordered(n));
                (s, SM { ordered: false, ..m })
            }
            7 => {
                self.op("try_buffered");
                let (a, m) = self.stream(d - 1);
                let n = c.range(1, 4);
                let s: BS = Box::pin(a.map_ok(move |t| step(&w, "try_buffered", Ok::<Tok, Tok>(t))).try_buffered(n));
                // Errors of the source overtake what is still running.
                (s, SM { ordered: false, ..m })
            }
            8 => {
                self.op("futures_unordered");
                let (v, ms) = self.many(d);
                (Box::pin(v.into_iter().collect::<FuturesUnordered<_>>()), SM { items: ms, ordered: false })
            }
            9 => {
                self.op("futures_ordered");
                let (v, ms) = self.many(d);
                (Box::pin(v.into_iter().collect::<FuturesOrdered<_>>()), SM { items: ms, ordered: true })
            }
            10 => {
                self.op("take");
                let (a, m) = self.stream(d - 1);
                let n = c.below(4);
                let items = if m.ordered { m.items.map(|v| v.into_iter().take(n).collect()) } else { None };
                (Box::pin(a.take(n)), SM { items, ordered: m.ordered })
            }
            11 => {
                self.op("zip");
                let (a, m) = self.stream(d - 1);
                let (b, n) = self.stream(d - 1);
                let ordered = m.ordered && n.ordered;
                let items = match (m.items, n.items) {
                    (Some(x), Some(y)) if ordered => Some(x.iter().zip(y.iter()).map(|(p, q)| Ok(mixed(key(p), key(q)))).collect()),
                    _ => None,
                };
                let tk = c.clone();
                (Box::pin(a.zip(b).map(move |(x, y)| Ok(tk.tok(mixed(rkey(&x), rkey(&y)))))), SM { items, ordered })
            }
            12 => {
                self.op("once");
                let (f, m) = self.fut(d - 1);
                let s: BS = if c.bool() { Box::pin(stream::once(f)) } else { Box::pin(f.into_stream()) };
                (s, SM { items: m.map(|m| vec![m]), ordered: true })
            }
            13 => {
                self.op("channel_stream");
                // A stream fed through a channel by a future that runs beside it.
                let (a, m) = self.stream(d - 1);
                let (tx, rx) = mpsc::channel(c.below(3));
                let feeder = a.forward(tx.sink_map_err(|_| ())).map(|_| None);
                let s: BS = Box::pin(stream::select(rx.map(Some), stream::once(feeder)).filter_map(|x: Option<R>| future::ready(x)));
                (s, m)
            }
            14 => {
                self.op("abortable_stream");
                let (a, m) = self.stream(d - 1);
                let (s, h) = stream::abortable(a);
                if c.bool() {
                    drop(h);
                    (Box::pin(s), m)
                } else {
                    let mut n = c.below(4);
                    let s = s.inspect(move |_| {
                        if n == 0 {
                            h.abort();
                        }
                        n = n.saturating_sub(1);
                    });
                    (Box::pin(s), SM { items: None, ordered: m.ordered })
                }
            }
            15 => {
                self.op("take_while");
                let (a, m) = self.stream(d - 1);
                let keep = move |k: u64| mixed(id, k) % 4 != 0;
                let ordered = m.ordered;
                if c.bool() {
                    let items = if ordered { m.items.map(|v| v.into_iter().take_while(|m| keep(key(m))).collect()) } else { None };
                    (Box::pin(a.take_while(move |r| step(&w, "take_while", keep(rkey(r))))), SM { items, ordered })
                } else {
                    let items = if ordered { m.items.map(|v| v.into_iter().skip_while(|m| keep(key(m))).collect()) } else { None };
                    (Box::pin(a.skip_while(move |r| step(&w, "skip_while", keep(rkey(r))))), SM { items, ordered })
                }
            }
            16 => {
                self.op("take_until");
                let (a, m) = self.stream(d - 1);
                let (f, _) = self.fut(d - 1);
                let never = c.bool();
                if !never && c.bool() {
                    let s: BS = Box::pin(a.chain(stream::pending()).take_until(f));
                    return (s, SM { items: None, ordered: m.ordered });
                }
                let s: BS =
                    if never { Box::pin(a.take_until(future::pending::<()>())) } else { Box::pin(a.take_until(f)) };
                (s, SM { items: if never { m.items } else { None }, ordered: m.ordered })
            }
            17 => {
                self.op("scan");
                let (a, m) = self.stream(d - 1);
                let tk = c.clone();
                let s: BS = Box::pin(a.scan(id, move |st, r| {
                    let t = tk.tok(rkey(&r));
                    step(&w, "scan", Some((st + 1, Ok(t))))
                }));
                (s, SM { items: m.items.map(|v| v.iter().map(|m| Ok(key(m))).collect()), ordered: m.ordered })
            }
            18 => {
                self.op("peekable");
                let (a, m) = self.stream(d - 1);
                let s: BS = Box::pin(stream::unfold(Box::pin(a.peekable()), |mut s| async move {
                    let k = s.as_mut().peek().await.map(rkey);
                    let r = s.next().await;
                    assert!(r.as_ref().map(rkey) == k);
                    r.map(|r| (r, s))
                }));
                (s, m)
            }
            19 => {
                self.op("chunks");
                let (a, m) = self.stream(d - 1);
                let n = c.range(1, 3);
                let s: BS = match c.below(3) {
                    0 => Box::pin(a.chunks(n).map(stream::iter).flatten()),
                    1 => Box::pin(a.ready_chunks(n).map(stream::iter).flatten()),
                    _ => Box::pin(a.try_chunks(n).map(move |r| match r {
                        Ok(v) => stream::iter(v.into_iter().map(Ok).collect::<Vec<R>>()),
                        Err(stream::TryChunksError(v, e)) => {
                            stream::iter(v.into_iter().map(Ok).chain([Err(e)]).collect::<Vec<R>>())
                        }
                    }).flatten()),
                };
                (s, m)
            }
            20 => {
                self.op("try_steps");
                let (a, m) = self.stream(d - 1);
                let keep = move |k: u64| mixed(id, k) % 3 != 0;
                let tk = c.clone();
                match c.below(4) {
                    0 => {
                        let s: BS = Box::pin(a.and_then(move |t| {
                            let r = if keep(t.v) { Ok(t) } else { Err(t) };
                            step(&w, "and_then", r)
                        }));
                        let f = move |m: M| m.and_then(|v| if keep(v) { Ok(v) } else { Err(v) });
                        (s, SM { items: m.items.map(|v| v.into_iter().map(f).collect()), ordered: m.ordered })
                    }
                    1 => {
                        let s: BS = Box::pin(a.or_else(move |t| step(&w, "or_else", Ok::<Tok, Tok>(tk.tok(t.v + 1)))));
                        (s, SM { items: m.items.map(|v| v.into_iter().map(|m| m.or_else(|e| Ok(e + 1))).collect()), ordered: m.ordered })
                    }
                    2 => {
                        let s: BS = Box::pin(a.try_filter(move |t| step(&w, "try_filter", keep(t.v))));
                        let f = move |m: &M| m.map_or(true, keep);
                        (s, SM { items: m.items.map(|v| v.into_iter().filter(f).collect()), ordered: m.ordered })
                    }
                    _ => {
                        let s: BS = Box::pin(a.try_filter_map(move |t| {
                            step(&w, "try_filter_map", Ok::<Option<Tok>, Tok>(if keep(t.v) { Some(t) } else { None }))
                        }));
                        let f = move |m: &M| m.map_or(true, keep);
                        (s, SM { items: m.items.map(|v| v.into_iter().filter(f).collect()), ordered: m.ordered })
                    }
                }
            }
            21 => {
                self.op("catch_unwind_stream");
                let (a, m) = self.stream(d - 1);
                let tk = c.clone();
                let s: BS = Box::pin(AssertUnwindSafe(a).catch_unwind().map(move |r| match r {
                    Ok(r) => r,
                    Err(p) if p.is::<Failed>() || p.is::<Inconclusive>() => resume_unwind(p),
                    Err(_) => Err(tk.tok(79)),
                }));
                (s, m)
            }
            22 => {
                self.op("try_flatten");
                let n = c.range(0, 3);
                let mut v = vec![];
                let mut all = Some(vec![]);
                let mut ordered = true;
                for _ in 0..n {
                    let (s, m) = self.stream(d - 1);
                    v.push(Ok::<BS, Tok>(s));
                    ordered &= m.ordered;
                    match (&mut all, m.items) {
                        (Some(v), Some(i)) => v.extend(i),
                        _ => all = None,
                    }
                }
                let o = stream::iter(v).then(move |s| step(&w, "outer", s));
                if c.bool() {
                    (Box::pin(o.try_flatten()), SM { items: all, ordered })
                } else {
                    let lim = *c.pick(&[None, Some(1), Some(2)]);
                    (Box::pin(o.try_flatten_unordered(lim)), SM { items: all, ordered: ordered && n <= 1 })
                }
            }
            23 => {
                self.op("try_buffer_unordered");
                let (a, m) = self.stream(d - 1);
                let n = c.range(1, 4);
                let s: BS = Box::pin(a.map_ok(move |t| step(&w, "try_buffered", Ok::<Tok, Tok>(t))).try_buffer_unordered(n));
                (s, SM { ordered: false, ..m })
            }
            24 => {
                self.op("unfold");
                let (a, m) = self.stream(d - 1);
                let s: BS = if c.bool() {
                    Box::pin(stream::unfold(a, |mut s| async move { s.next().await.map(|r| (r, s)) }))
                } else {
                    Box::pin(a.fuse().inspect(|_| ()).map(|r| r).left_stream::<stream::Empty<R>>())
                };
                (s, m)
            }
            25 => {
                self.op("switch");
                // Streams that arrive over a channel while the earlier ones run.
                let (a, m) = self.stream(d - 1);
                let (b, n) = self.stream(d - 1);
                let mut set = stream::SelectAll::new();
                set.push(a);
                let mut b = Some(b);
                let s: BS = Box::pin(stream::poll_fn(move |cx| {
                    let r = set.poll_next_unpin(cx);
                    match r {
                        std::task::Poll::Ready(None) | std::task::Poll::Pending => match b.take() {
                            Some(b) => {
                                set.push(b);
                                set.poll_next_unpin(cx)
                            }
                            None => r,
                        },
                        r => r,
                    }
                }));
                (
                    s,
                    SM {
                        items: m.items.and_then(|mut x| {
                            n.items.map(|y| {
                                x.extend(y);
                                x
                            })
                        }),
                        ordered: false,
                    },
                )
            }
            26 => {
                self.op("skip");
                let (a, m) = self.stream(d - 1);
                let n = c.below(4);
                let items = if m.ordered { m.items.map(|v| v.into_iter().skip(n).collect()) } else { None };
                (Box::pin(a.skip(n)), SM { items, ordered: m.ordered })
            }
            27 => {
                self.op("filter_map");
                let (a, m) = self.stream(d - 1);
                let keep = move |k: u64| mixed(id, k) % 3 != 0;
                (
                    Box::pin(a.filter_map(move |r| step(&w, "filter_map", if keep(rkey(&r)) { Some(r) } else { None }))),
                    SM { items: m.items.map(|v| v.into_iter().filter(|m| keep(key(m))).collect()), ordered: m.ordered },
                )
            }
            28 => {
                self.op("try_while");
                let (a, m) = self.stream(d - 1);
                let keep = move |k: u64| mixed(id, k) % 3 != 0;
                let ordered = m.ordered;
                let take = c.bool();
                let mut on = take;
                let items = m.items.filter(|_| ordered).map(|v| {
                    let mut out = vec![];
                    for m in v {
                        match m {
                            Ok(v) if take && on => {
                                on = keep(v);
                                if !on {
                                    break;
                                }
                                out.push(m)
                            }
                            Ok(v) if !on => {
                                on = !keep(v);
                                if on {
                                    out.push(m)
                                }
                            }
                            m => out.push(m),
                        }
                    }
                    out
                });
                let s: BS = if take {
                    Box::pin(a.try_take_while(move |t| step(&w, "try_take_while", Ok::<bool, Tok>(keep(t.v)))))
                } else {
                    Box::pin(a.try_skip_while(move |t| step(&w, "try_skip_while", Ok::<bool, Tok>(keep(t.v)))))
                };
                (s, SM { items, ordered })
            }
            29 => {
                self.op("try_unfold");
                let (a, m) = self.stream(d - 1);
                let s: BS = Box::pin(stream::try_unfold(a, |mut s| async move {
                    match s.next().await {
                        None => Ok(None),
                        Some(Ok(t)) => Ok(Some((t, s))),
                        Some(Err(e)) => Err(e),
                    }
                }));
                let ordered = m.ordered;
                let items = m.items.and_then(|mut v| match v.iter().position(|m| m.is_err()) {
                    Some(_) if !ordered => None,
                    Some(n) => {
                        v.truncate(n + 1);
                        Some(v)
                    }
                    None => Some(v),
                });
                (s, SM { items, ordered })
            }
            30 => {
                self.op("flat_map");
                let (a, m) = self.stream(d - 1);
                if c.bool() {
                    (Box::pin(a.flat_map(move |r| stream::once(step(&w, "flat_map", r)))), m)
                } else {
                    let n = *c.pick(&[None, Some(1), Some(2), Some(3)]);
                    let s: BS = Box::pin(a.flat_map_unordered(n, move |r| stream::once(step(&w, "flat_map", r)).boxed()));
                    (s, SM { ordered: m.ordered && n == Some(1), ..m })
                }
            }
            31 => {
                self.op("try_ready_chunks");
                let (a, m) = self.stream(d - 1);
                let n = c.range(1, 3);
                let s: BS = Box::pin(
                    a.try_ready_chunks(n)
                        .map(move |r| match r {
                            Ok(v) => stream::iter(v.into_iter().map(Ok).collect::<Vec<R>>()),
                            Err(stream::TryReadyChunksError(v, e)) => {
                                stream::iter(v.into_iter().map(Ok).chain([Err(e)]).collect::<Vec<R>>())
                            }
                        })
                        .flatten(),
                );
                (s, m)
            }
            32 => {
                self.op("select_with_strategy");
                let (a, m) = self.stream(d - 1);
                let (b, n) = self.stream(d - 1);
                let ck = c.clone();
                let s: BS = Box::pin(stream::select_with_strategy(a, b, move |_: &mut ()| {
                    if ck.bool() {
                        stream::PollNext::Left
                    } else {
                        stream::PollNext::Right
                    }
                }));
                let items = m.items.and_then(|mut x| {
                    n.items.map(|y| {
                        x.extend(y);
                        x
                    })
                });
                (s, SM { items, ordered: false })
            }
            33 => {
                self.op("try_flatten_stream");
                let (a, m) = self.fut(d - 1);
                let (s, sm) = self.stream(d - 1);
                let s: BS = Box::pin(a.map_ok(move |_| s).try_flatten_stream());
                match m {
                    None => (s, SM { items: None, ..sm }),
                    Some(Err(e)) => (s, SM { items: Some(vec![Err(e)]), ordered: true }),
                    Some(Ok(_)) => (s, sm),
                }
            }
            34 => {
                self.op("wrappers");
                let (a, m) = self.stream(d - 1);
                let s: BS = match c.below(7) {
                    4 => {
                        let k = Box::pin(LSink::<R, ()>::new(&self.world, "unused"));
                        Box::pin(Two { s: a, k }.buffer(1))
                    }
                    5 => {
                        let k = Box::pin(LSink::<R, ()>::new(&self.world, "unused"));
                        Box::pin(Two { s: a, k }.sink_map_err(|_| ()).with(|r: R| future::ready(Ok::<R, ()>(r))))
                    }
                    6 => {
                        // A stream that can be had again and again.
                        let (k, n) = (c.range(1, 3) as u64, c.below(6));
                        let s = Again { w: self.world.clone(), i: 0, n: k, gate: None }.cycle().take(n);
                        let tk = c.clone();
                        let items = Some((0..n as u64).map(|i| Ok(i % k)).collect());
                        return (Box::pin(s.map(move |v| Ok(tk.tok(v)))), SM { items, ordered: true });
                    }
                    0 => Box::pin(a.right_stream::<stream::Empty<R>>()),
                    1 => Box::pin(futures::stream_select!(a, stream::empty::<R>())),
                    2 => {
                        let mut a = a;
                        Box::pin(stream::poll_fn(move |cx| a.poll_next_unpin(cx)))
                    }
                    _ => Box::pin(a.enumerate().map(|(_, r)| r).err_into::<Tok>()),
                };
                (s, m)
            }
            35 => {
                self.op("next_if");
                let (a, m) = self.stream(d - 1);
                let s: BS = Box::pin(stream::unfold(Box::pin(a.fuse().peekable()), move |mut s| async move {
                    if mixed(id, 7) % 2 == 0 {
                        let k = s.as_mut().peek_mut().await.map(|r| rkey(r));
                        let r = s.next().await;
                        assert!(r.as_ref().map(rkey) == k);
                        return r.map(|r| (r, s));
                    }
                    if let Some(r) = s.as_mut().next_if(|r| mixed(id, rkey(r)) % 2 == 0).await {
                        return Some((r, s));
                    }
                    let k = s.as_mut().peek_mut().await.map(|r| rkey(r));
                    let r = s.next().await;
                    assert!(r.as_ref().map(rkey) == k);
                    r.map(|r| (r, s))
                }));
                (s, m)
            }
            36 | 37 => {
                self.op("with_never");
                let (a, m) = self.stream(d - 1);
                let n = match &m.items {
                    Some(v) => v.len(),
                    None => return (a, m),
                };
                let never = || -> BS { Box::pin(stream::pending::<R>()) };
                let mut v = vec![never(), never()];
                let s: BS = match c.below(8) {
                    0 => Box::pin(stream::select(a, never()).take(n)),
                    1 => Box::pin(stream::select(never(), a).take(n)),
                    2 => {
                        v.insert(c.below(3), a);
                        Box::pin(stream::select_all(v).take(n))
                    }
                    3 => {
                        v.insert(c.below(3), a);
                        Box::pin(stream::iter(v).flatten_unordered(None).take(n))
                    }
                    4 => Box::pin(futures::stream_select!(a, never()).take(n)),
                    5 => {
                        let k = c.below(3);
                        let f = a.map(move |r| step(&w, "buffered", r).boxed());
                        let p = stream::iter((0..k).map(move |_| never().into_future().map(|_| unreachable!()).boxed()));
                        Box::pin(p.chain(f).buffer_unordered(k + 1).take(n))
                    }
                    6 => {
                        let k = c.below(3);
                        let f = a.map(move |r| step(&w, "buffered", r).boxed());
                        let p = stream::iter((0..k).map(move |_| never().into_future().map(|_| unreachable!()).boxed()));
                        Box::pin(p.chain(f).map(Ok::<_, Tok>).try_buffer_unordered(k + 1).take(n))
                    }
                    _ => Box::pin(a.take_until(future::pending::<()>())),
                };
                // (The first few of an ordered one are its own.)
                (s, SM { items: m.items, ordered: false })
            }
            _ => {
                self.op("flatten");
                let n = c.range(0, 3);
                let mut v = vec![];
                let mut all = Some(vec![]);
                let mut ordered = true;
                for _ in 0..n {
                    let (s, m) = self.stream(d - 1);
                    v.push(s);
                    ordered &= m.ordered;
                    match (&mut all, m.items) {
                        (Some(v), Some(i)) => v.extend(i),
                        _ => all = None,
                    }
                }
                (Box::pin(stream::iter(v).then(move |s| step(&w, "outer", s)).flatten()), SM { items: all, ordered })
            }
        }
    }
}

/// A stream and a sink in one.
struct Both {
    s: BS,
    sent: Arc<Mutex<Vec<u64>>>,
}
impl Stream for Both {
    type Item = R;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<R>> {
        self.s.as_mut().poll_next(cx)
    }
}
impl futures::sink::Sink<u64> for Both {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), ()>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, k: u64) -> Result<(), ()> {
        self.sent.lock().unwrap().push(k);
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), ()>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), ()>> {
        std::task::Poll::Ready(Ok(()))
    }
}

/// A stream and a sink in one, both given.
struct Two {
    s: BS,
    k: BK,
}
impl Stream for Two {
    type Item = R;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<R>> {
        self.s.as_mut().poll_next(cx)
    }
}
impl Sink<R> for Two {
    type Error = ();
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), ()>> {
        self.k.as_mut().poll_ready(cx)
    }
    fn start_send(mut self: Pin<&mut Self>, r: R) -> Result<(), ()> {
        self.k.as_mut().start_send(r)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), ()>> {
        self.k.as_mut().poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), ()>> {
        self.k.as_mut().poll_close(cx)
    }
}

/// A stream that can be had again from the start.
struct Again {
    w: World,
    i: u64,
    n: u64,
    gate: Option<Pin<Box<LFut<()>>>>,
}
impl Clone for Again {
    fn clone(&self) -> Self {
        Again { w: self.w.clone(), i: self.i, n: self.n, gate: None }
    }
}
impl Stream for Again {
    type Item = u64;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<u64>> {
        if self.gate.is_none() {
            let g = LFut::gen(&self.w, "again", ());
            self.gate = Some(Box::pin(g));
        }
        std::task::ready!(self.gate.as_mut().unwrap().as_mut().poll(cx));
        self.gate = None;
        if self.i == self.n {
            return std::task::Poll::Ready(None);
        }
        self.i += 1;
        std::task::Poll::Ready(Some(self.i - 1))
    }
}

/// A stream whose next item comes after the sink beside it flushed the last one.
#[derive(Default)]
struct PongSt {
    given: usize,
    sent: usize,
    flushed: usize,
    waker: Option<std::task::Waker>,
}
#[derive(Clone)]
struct Pong {
    st: Arc<Mutex<PongSt>>,
    n: usize,
    w: World,
}
impl Stream for Pong {
    type Item = usize;
    fn poll_next(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<usize>> {
        let mut st = self.st.lock().unwrap();
        if st.flushed < st.given {
            st.waker = Some(cx.waker().clone());
            return std::task::Poll::Pending;
        }
        if st.given == self.n {
            return std::task::Poll::Ready(None);
        }
        st.given += 1;
        std::task::Poll::Ready(Some(st.given))
    }
}
struct PongSink {
    p: Pong,
    gate: Option<Pin<Box<LFut<()>>>>,
}
impl Sink<usize> for PongSink {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), ()>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, _: usize) -> Result<(), ()> {
        self.p.st.lock().unwrap().sent += 1;
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), ()>> {
        let dirty = {
            let st = self.p.st.lock().unwrap();
            st.flushed < st.sent
        };
        if dirty {
            if self.gate.is_none() {
                let g = LFut::gen(&self.p.w, "pong", ());
                self.gate = Some(Box::pin(g));
            }
            std::task::ready!(self.gate.as_mut().unwrap().as_mut().poll(cx));
            self.gate = None;
            let w = {
                let mut st = self.p.st.lock().unwrap();
                st.flushed = st.sent;
                st.waker.take()
            };
            if let Some(w) = w {
                w.wake();
            }
        }
        std::task::Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), ()>> {
        self.poll_flush(cx)
    }
}

/// Marks an end as closed when closing it succeeds.
struct CloseMark {
    k: BK,
    st: KSt,
}
impl Sink<R> for CloseMark {
    type Error = ();
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), ()>> {
        self.k.as_mut().poll_ready(cx)
    }
    fn start_send(mut self: Pin<&mut Self>, r: R) -> Result<(), ()> {
        self.k.as_mut().start_send(r)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), ()>> {
        self.k.as_mut().poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), ()>> {
        let r = self.k.as_mut().poll_close(cx);
        if let std::task::Poll::Ready(Ok(())) = r {
            self.st.lock().unwrap().closed = true;
        }
        r
    }
}

enum How {
    Finish,
    Cancel,
}

fn run(case: &Case, panics: bool, how: How) {
    let world = World::new(case);
    let mut t = T {
        case: case.clone(),
        world: world.clone(),
        panics,
        next: 0,
        size: case.range(2, 14),
        leaves: vec![],
        ops: vec![],
    };
    let d = case.range(2, 5);
    let (mut f, m) = t.fut(d);
    let mut p = Poller::new(case);
    let budget = match how {
        How::Finish => usize::MAX,
        How::Cancel => case.range(0, 12),
    };
    let r = catch_unwind(AssertUnwindSafe(|| drive_some(&mut p, &world, "composition", budget, |cx| f.as_mut().poll(cx))));
    match r {
        Ok(Some(r)) => {
            if let (Some(m), false) = (m, panics) {
                case.eq(of(&r), m, "result of the composition");
                case.label("value_checked");
            }
        }
        Ok(None) => case.label("cancelled"),
        Err(e) => {
            if !panics || e.is::<Failed>() || e.is::<Inconclusive>() {
                resume_unwind(e);
            }
            if !e.is::<Injected>() {
                // Sharing reports a panic of the shared future in its own words.
                case.label("other_panic");
                if !t.ops.contains(&"shared") {
                    resume_unwind(e);
                }
            }
            case.label("panicked");
        }
    }
    let live = t.leaves.iter().filter(|l| l.started() && !l.dropped()).count();
    case.label_if(live > 0, "dropped_midway");
    if t.ops.len() >= 3 && t.leaves.iter().filter(|l| l.started()).count() >= 3 {
        case.nontrivial();
    }
    for o in &t.ops {
        case.label(o);
    }
    if case.bool() {
        drop(f);
        // Events that come too late must do no harm.
        while !world.waiting().is_empty() {
            world.fire_some();
        }
        world.clear();
    } else {
        drop(f);
        world.clear();
    }
    for l in &t.leaves {
        case.check(l.dropped(), || "a part was not dropped with the whole".into());
        l.stash.lock().unwrap().clear();
    }
    drop(t);
    let flag = p.flag.clone();
    drop(p);
    case.eq(Arc::strong_count(&flag), 1, "wakers left after everything was dropped, plus one");
    case.no_leaks("composition");
}

fn finish(case: &Case) {
    run(case, false, How::Finish)
}
fn cancel(case: &Case) {
    run(case, false, How::Cancel)
}
fn panics(case: &Case) {
    run(case, true, if case.chance(3, 4) { How::Finish } else { How::Cancel })
}

fn main() {
    main_for(vec![
        Prop {
            id: "C15",
            rule: "finish: random compositions (up to 5 levels, 14 inner nodes) of future and stream combinators, macros, channels, locks, sharing, remote handles and aborting over scripted leaves, driven by an executor that polls only when the waker of the latest poll was woken; expected result where it is determined. Non-trivial: >=3 different inner nodes and >=3 leaves that were started.",
            subs: vec![sub("finish", finish, 10_000_000, 40_000_000).miri(48, 1500)],
        },
        Prop {
            id: "C27",
            rule: "cancel: the compositions of C15 dropped after a random number of steps, with late events; panics: the same with leaves that panic, caught at the root or inside. Every leaf, value and waker must be gone exactly once, nothing is polled again, and whatever survives (a catch_unwind inside) still makes progress. Non-trivial: as C15.",
            subs: vec![
                sub("cancel", cancel, 8_000_000, 36_000_000).miri(32, 1000),
                sub("panics", panics, 8_000_000, 30_000_000).miri(48, 1500),
            ],
        },
    ]);
}
