//! Sequential stream adaptors against lazy iterator models; size hints and
//! termination flags.
use futures::future::{self, FusedFuture, Future, FutureExt, TryFutureExt};
use futures::sink::SinkExt;
use futures::stream::{self, FusedStream, Stream, StreamExt, TryStreamExt};
use std::cell::RefCell;
use std::convert::Infallible;
use std::collections::{BTreeMap, VecDeque};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};
use vh::case::{Case, Injected, Tok};
use vh::leaf::{gates, Gate, LFut, LStream, LeafSt, SStep};
use vh::runner::{main_for, sub, Prop};
use vh::sim::{drive, drive_some, Poller, World};

type BF<T> = Pin<Box<dyn Future<Output = T>>>;
type R = Result<Tok, Tok>;
type M = Result<u64, u64>;
type BS = Pin<Box<dyn Stream<Item = R>>>;
type BI = Box<dyn Iterator<Item = M>>;

fn val(r: &R) -> u64 {
    match r {
        Ok(t) => t.v,
        Err(t) => t.v + 1_000_000,
    }
}
fn key(r: &M) -> u64 {
    match r {
        Ok(t) => *t,
        Err(t) => *t + 1_000_000,
    }
}
fn h(salt: u32, v: u64) -> u64 {
    let mut x = v.wrapping_mul(0x9E3779B97F4A7C15) ^ ((salt as u64) << 17);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    (x ^ (x >> 32)) % 1000
}
fn mapped(id: u32, m: M) -> M {
    let k = key(&m);
    match m {
        Ok(_) => Ok(h(id, k)),
        Err(_) => Err(h(id, k)),
    }
}
/// A transformation that may also turn values into errors and back.
fn flipped(id: u32, m: M) -> M {
    let k = key(&m);
    if h(id, k) % 4 == 0 {
        Err(h(id + 500, k))
    } else {
        Ok(h(id + 500, k))
    }
}
fn to(case: &Case, m: M) -> R {
    match m {
        Ok(v) => Ok(case.tok(v)),
        Err(v) => Err(case.tok(v)),
    }
}
fn of(r: &R) -> M {
    match r {
        Ok(t) => Ok(t.v),
        Err(t) => Err(t.v),
    }
}
fn pred(id: u32, k: u64) -> bool {
    h(id, k) % 3 != 0
}

type Trace = Rc<RefCell<BTreeMap<u32, Vec<u64>>>>;

fn hit(t: &Trace, id: u32, v: u64) {
    t.borrow_mut().entry(id).or_default().push(v);
}

struct Gen<'c> {
    case: &'c Case,
    world: World,
    got: Trace,
    want: Trace,
    next: u32,
    /// Closures up to this one may run ahead of the model (zip looks ahead).
    loose: u32,
    tries: bool,
    leaves: Vec<Arc<LeafSt>>,
    ops: Vec<&'static str>,
    /// Sources report termination as soon as they have no items left.
    early: bool,
}

/// A future giving `t`, by choice at once or after some events.
fn fut<T>(world: &World, t: T) -> LFut<T> {
    let g = if world.case.chance(1, 2) { VecDeque::new() } else { gates(world) };
    LFut::new(world, "fut", g, t)
}

impl<'c> Gen<'c> {
    fn id(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn items(&self) -> Vec<M> {
        let c = self.case;
        c.vec(7, |c| {
            let v = c.below(60) as u64;
            if self.tries && c.chance(1, 4) || !self.tries && c.chance(1, 8) {
                Err(v)
            } else {
                Ok(v)
            }
        })
    }
    fn lstream(&mut self, items: &[M]) -> LStream<R> {
        let case = self.case;
        let name = format!("s{}", self.next);
        let mut s = LStream::gen(&self.world, name, items.iter().map(|m| to(case, *m)).collect::<Vec<_>>());
        if self.early {
            s = s.early();
        }
        self.leaves.push(s.st.clone());
        s
    }
    fn leaf(&mut self) -> (BS, BI) {
        let case = self.case.clone();
        let items = self.items();
        let id = self.id();
        let it: BI = Box::new(items.clone().into_iter());
        let c = case.clone();
        let k = case.weighted(&[10, 2, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1]);
        let s: BS = match k {
            0 => Box::pin(self.lstream(&items)),
            1 => Box::pin(stream::iter(items.into_iter().map(move |m| to(&c, m)))),
            2 => {
                let m = items.first().copied().unwrap_or(Ok(1));
                let f = fut(&self.world, to(&c, m));
                return (Box::pin(stream::once(f)), Box::new(std::iter::once(m)));
            }
            3 => {
                let m = items.first().copied().unwrap_or(Ok(1));
                let n = case.below(4);
                return (Box::pin(stream::repeat(to(&c, m)).take(n)), Box::new(std::iter::repeat(m).take(n)));
            }
            4 => {
                let n = case.below(4);
                let (g, w) = (self.got.clone(), self.want.clone());
                let s = stream::repeat_with(move || {
                    hit(&g, id, 1);
                    Ok(c.tok(1))
                });
                let it = std::iter::repeat_with(move || {
                    hit(&w, id, 1);
                    Ok(1)
                });
                return (Box::pin(s.take(n)), Box::new(it.take(n)));
            }
            5 => {
                let (g, w) = (self.got.clone(), self.want.clone());
                let world = self.world.clone();
                let n = items.len() as u64;
                let items2 = items.clone();
                let s = stream::unfold(0u64, move |i| {
                    hit(&g, id, i);
                    let r = if i < n { Some((to(&c, items2[i as usize]), i + 1)) } else { None };
                    fut(&world, r)
                });
                let mut i = 0;
                let it = std::iter::from_fn(move || {
                    hit(&w, id, i);
                    if i < n {
                        i += 1;
                        Some(items[i as usize - 1])
                    } else {
                        None
                    }
                });
                return (Box::pin(s), Box::new(it.fuse()));
            }
            6 => {
                // poll_fn over a scripted stream
                let mut s = Box::pin(self.lstream(&items));
                Box::pin(stream::poll_fn(move |cx| s.as_mut().poll_next(cx)))
            }
            7 => {
                // cycle of a cloneable stream, cut off
                let n = case.below(10);
                let v: Vec<M> = items.clone();
                let s = stream::iter(v.clone()).cycle().take(n).map(move |m| to(&c, m));
                return (Box::pin(s), Box::new(v.into_iter().cycle().take(n)));
            }
            9 => {
                let s = self.lstream(&items);
                Box::pin(fut(&self.world, s).flatten_stream())
            }
            10 => {
                // An error instead of the stream is the only item.
                let r = match items.first() {
                    Some(Err(e)) if case.bool() => Err(c.tok(*e)),
                    _ => Ok(self.lstream(&items)),
                };
                let only = r.is_err();
                let s: BS = Box::pin(fut(&self.world, r).try_flatten_stream());
                if only {
                    return (s, Box::new(items.into_iter().take(1)));
                }
                s
            }
            11 => {
                let m = items.first().copied().unwrap_or(Ok(1));
                let f = fut(&self.world, to(&c, m));
                return (Box::pin(f.into_stream()), Box::new(std::iter::once(m)));
            }
            _ => {
                // try_unfold: ends after an error
                let (g, w) = (self.got.clone(), self.want.clone());
                let world = self.world.clone();
                let n = items.len() as u64;
                let items2 = items.clone();
                let s = stream::try_unfold(0u64, move |i| {
                    hit(&g, id, i);
                    let r: Result<Option<(Tok, u64)>, Tok> =
                        if i < n { to(&c, items2[i as usize]).map(|t| Some((t, i + 1))) } else { Ok(None) };
                    fut(&world, r)
                });
                let mut i = 0;
                let mut over = false;
                let it = std::iter::from_fn(move || {
                    if over {
                        return None;
                    }
                    hit(&w, id, i);
                    if i < n {
                        i += 1;
                        let m = items[i as usize - 1];
                        over = m.is_err();
                        Some(m)
                    } else {
                        over = true;
                        None
                    }
                });
                return (Box::pin(s), Box::new(it.fuse()));
            }
        };
        (s, it)
    }
    fn wrap(&mut self, s: BS, it: BI, depth: usize) -> (BS, BI) {
        let case = self.case.clone();
        let c = case.clone();
        let id = self.id();
        let (g, w) = (self.got.clone(), self.want.clone());
        let world = self.world.clone();
        let k = if self.tries { case.below(44) } else { case.below(27) };
        const NAMES: [&str; 44] = [
            "map", "enumerate", "filter", "filter_map", "then", "flat_map", "flatten", "scan", "skip_while", "take_while",
            "take", "skip", "chain", "zip", "peekable", "fuse", "inspect", "either", "boxed", "chunks", "into_future",
            "poll_immediate", "abortable", "catch_unwind", "next-loop", "buffered", "by_ref",
            "map_ok", "map_err", "and_then", "or_else", "err_into", "inspect_ok", "inspect_err", "try_filter",
            "try_filter_map", "try_flatten", "try_take_while", "try_skip_while", "try_chunks", "into_stream", "try_next-loop",
            "try_buffered", "try_ready_chunks",
        ];
        self.ops.push(NAMES[k]);
        case.log(|| format!("op {id}: {}", NAMES[k]));
        match k {
            0 => (
                Box::pin(s.map(move |r| {
                    hit(&g, id, val(&r));
                    to(&c, mapped(id, of(&r)))
                })),
                Box::new(it.map(move |m| {
                    hit(&w, id, key(&m));
                    mapped(id, m)
                })),
            ),
            1 => (
                Box::pin(s.enumerate().map(move |(i, r)| to(&c, mapped(id + i as u32, of(&r))))),
                Box::new(it.enumerate().map(move |(i, m)| mapped(id + i as u32, m))),
            ),
            2 => (
                Box::pin(s.filter(move |r| {
                    hit(&g, id, val(r));
                    fut(&world, pred(id, val(r)))
                })),
                Box::new(it.filter(move |m| {
                    hit(&w, id, key(m));
                    pred(id, key(m))
                })),
            ),
            3 => (
                Box::pin(s.filter_map(move |r| {
                    hit(&g, id, val(&r));
                    fut(&world, if pred(id, val(&r)) { Some(to(&c, mapped(id, of(&r)))) } else { None })
                })),
                Box::new(it.filter_map(move |m| {
                    hit(&w, id, key(&m));
                    if pred(id, key(&m)) {
                        Some(mapped(id, m))
                    } else {
                        None
                    }
                })),
            ),
            4 => (
                Box::pin(s.then(move |r| {
                    hit(&g, id, val(&r));
                    fut(&world, to(&c, mapped(id, of(&r))))
                })),
                Box::new(it.map(move |m| {
                    hit(&w, id, key(&m));
                    mapped(id, m)
                })),
            ),
            5 | 6 => {
                let inner = move |m: M| -> Vec<M> { (0..h(id, key(&m)) % 4).map(|i| mapped(i as u32 + id, m)).collect() };
                let mk = move |r: R| {
                    hit(&g, id, val(&r));
                    let v: Vec<R> = inner(of(&r)).into_iter().map(|m| to(&c, m)).collect();
                    LStream::gen(&world, "inner", v)
                };
                let it = Box::new(it.flat_map(move |m| {
                    hit(&w, id, key(&m));
                    inner(m)
                }));
                if k == 5 {
                    (Box::pin(s.flat_map(mk)), it)
                } else {
                    (Box::pin(s.map(mk).flatten()), it)
                }
            }
            7 => {
                let step = move |st: u64, m: M| -> Option<(u64, M)> {
                    let x = h(id, st * 31 + key(&m));
                    if x % 7 == 0 {
                        None
                    } else {
                        Some((x, mapped(x as u32, m)))
                    }
                };
                let mut st = 5u64;
                (
                    Box::pin(s.scan(5u64, move |st, r| {
                        hit(&g, id, val(&r));
                        fut(&world, step(st, of(&r)).map(|(s, m)| (s, to(&c, m))))
                    })),
                    Box::new(
                        it.map_while(move |m| {
                            hit(&w, id, key(&m));
                            let (s2, o) = step(st, m)?;
                            st = s2;
                            Some(o)
                        })
                        .fuse(),
                    ),
                )
            }
            8 => (
                Box::pin(s.skip_while(move |r| {
                    hit(&g, id, val(r));
                    fut(&world, pred(id, val(r)))
                })),
                Box::new(it.skip_while(move |m| {
                    hit(&w, id, key(m));
                    pred(id, key(m))
                })),
            ),
            9 => (
                Box::pin(s.take_while(move |r| {
                    hit(&g, id, val(r));
                    fut(&world, pred(id, val(r)))
                })),
                Box::new(
                    it.take_while(move |m| {
                        hit(&w, id, key(m));
                        pred(id, key(m))
                    })
                    .fuse(),
                ),
            ),
            10 => {
                let n = case.below(6);
                (Box::pin(s.take(n)), Box::new(it.take(n)))
            }
            11 => {
                let n = case.below(4);
                (Box::pin(s.skip(n)), Box::new(it.skip(n)))
            }
            12 => {
                let (s2, it2) = self.expr(depth.saturating_sub(1));
                (Box::pin(s.chain(s2)), Box::new(it.chain(it2)))
            }
            13 => {
                let (s2, it2) = self.expr(depth.saturating_sub(1));
                self.loose = self.next;
                let z = |id: u32, a: M, b: M| mapped(id, if key(&a) % 2 == 0 { a } else { b });
                (
                    Box::pin(s.zip(s2).map(move |(a, b)| to(&c, z(id, of(&a), of(&b))))),
                    Box::new(it.zip(it2).map(move |(a, b)| z(id, a, b)).fuse()),
                )
            }
            14 => {
                let p = Box::pin(s.peekable());
                let u = stream::unfold(p, move |mut p| {
                    let c = c.clone();
                    async move {
                        let peek = if c.bool() { p.as_mut().peek().await.map(val) } else { None };
                        let peek2 = if c.bool() { p.as_mut().peek_mut().await.map(|x| val(x)) } else { None };
                        let n = p.next().await;
                        for x in peek.into_iter().chain(peek2) {
                            assert_eq!(Some(x), n.as_ref().map(val), "peeked item is the next one");
                        }
                        n.map(|n| (n, p))
                    }
                    .boxed_local()
                });
                (Box::pin(u), it)
            }
            15 => (Box::pin(s.fuse()), Box::new(it.fuse())),
            16 => (
                Box::pin(s.inspect(move |r| hit(&g, id, val(r)))),
                Box::new(it.inspect(move |m| hit(&w, id, key(m)))),
            ),
            17 => {
                if case.bool() {
                    let e: future::Either<_, stream::Empty<R>> = s.left_stream();
                    (Box::pin(e), it)
                } else {
                    let e: future::Either<stream::Empty<R>, _> = s.right_stream();
                    (Box::pin(e), it)
                }
            }
            18 => (Box::pin(s.boxed_local()), it),
            19 => {
                let n = case.range(1, 4);
                let f = move |v: Vec<M>| -> M { Ok(h(id, v.iter().fold(v.len() as u64, |a, m| a * 31 + key(m)))) };
                let mut it = it.fuse();
                (
                    Box::pin(s.chunks(n).map(move |v| {
                        assert!(!v.is_empty() && v.len() <= n, "chunk of {} for {n}", v.len());
                        to(&c, f(v.iter().map(of).collect()))
                    })),
                    Box::new(
                        std::iter::from_fn(move || {
                            let v: Vec<M> = it.by_ref().take(n).collect();
                            if v.is_empty() {
                                None
                            } else {
                                Some(f(v))
                            }
                        })
                        .fuse(),
                    ),
                )
            }
            20 => {
                let u = stream::unfold(s, |s| async move {
                    let (x, s) = s.into_future().await;
                    x.map(|x| (x, s))
                }.boxed_local());
                (Box::pin(u), it)
            }
            21 => {
                // stream::poll_immediate: Pending markers must be the only difference.
                let mut p = Box::pin(stream::poll_immediate(s));
                let u = stream::poll_fn(move |cx| match p.as_mut().poll_next(cx) {
                    Poll::Ready(Some(Poll::Ready(x))) => Poll::Ready(Some(x)),
                    Poll::Ready(Some(Poll::Pending)) => Poll::Pending,
                    Poll::Ready(None) => Poll::Ready(None),
                    Poll::Pending => panic!("stream::poll_immediate is pending"),
                });
                (Box::pin(u), it)
            }
            22 => {
                let (a, h) = stream::abortable(s);
                let mut keep = Some(h);
                (
                    Box::pin(a.inspect(move |_| {
                        keep.take();
                    })),
                    it,
                )
            }
            23 => (Box::pin(AssertUnwindSafe(s).catch_unwind().map(|r| r.unwrap())), it),
            24 => {
                let u = stream::unfold(s, |mut s| async move { s.next().await.map(|x| (x, s)) }.boxed_local());
                (Box::pin(u), it)
            }
            25 => {
                let n = case.range(1, 3);
                self.loose = self.next;
                let s = s.map(move |r| fut(&world, to(&c, mapped(id, of(&r))))).buffered(n);
                (Box::pin(s), Box::new(it.map(move |m| mapped(id, m))))
            }
            26 => {
                // The first part through by_ref, the rest afterwards.
                let n = case.below(4);
                let mut s = s;
                let u = Box::pin(async move {
                    let first: Vec<R> = s.by_ref().take(n).collect().await;
                    let done = first.len() < n;
                    stream::iter(first).chain(if done { futures::future::Either::Left(stream::empty()) } else { futures::future::Either::Right(s) })
                });
                self.loose = self.next;
                (Box::pin(u.flatten_stream()), it)
            }
            27 => (
                Box::pin(s.map_ok(move |t| {
                    hit(&g, id, t.v);
                    c.tok(h(id, t.v))
                })),
                Box::new(it.map(move |m| {
                    m.map(|v| {
                        hit(&w, id, v);
                        h(id, v)
                    })
                })),
            ),
            28 => (
                Box::pin(s.map_err(move |t| {
                    hit(&g, id, t.v);
                    c.tok(h(id, t.v))
                })),
                Box::new(it.map(move |m| {
                    m.map_err(|v| {
                        hit(&w, id, v);
                        h(id, v)
                    })
                })),
            ),
            29 => (
                Box::pin(s.and_then(move |t| {
                    hit(&g, id, t.v);
                    fut(&world, to(&c, flipped(id, Ok(t.v))))
                })),
                Box::new(it.map(move |m| {
                    m.and_then(|v| {
                        hit(&w, id, v);
                        flipped(id, Ok(v))
                    })
                })),
            ),
            30 => (
                Box::pin(s.or_else(move |t| {
                    hit(&g, id, t.v);
                    fut(&world, to(&c, flipped(id, Err(t.v))))
                })),
                Box::new(it.map(move |m| {
                    m.or_else(|v| {
                        hit(&w, id, v);
                        flipped(id, Err(v))
                    })
                })),
            ),
            31 => (Box::pin(s.err_into::<Tok>()), it),
            32 => (
                Box::pin(s.inspect_ok(move |t| hit(&g, id, t.v))),
                Box::new(it.inspect(move |m| {
                    if let Ok(v) = m {
                        hit(&w, id, *v)
                    }
                })),
            ),
            33 => (
                Box::pin(s.inspect_err(move |t| hit(&g, id, t.v))),
                Box::new(it.inspect(move |m| {
                    if let Err(v) = m {
                        hit(&w, id, *v)
                    }
                })),
            ),
            34 => (
                Box::pin(s.try_filter(move |t| {
                    hit(&g, id, t.v);
                    fut(&world, pred(id, t.v))
                })),
                Box::new(it.filter(move |m| match m {
                    Ok(v) => {
                        hit(&w, id, *v);
                        pred(id, *v)
                    }
                    Err(_) => true,
                })),
            ),
            35 => {
                let f = move |v: u64| -> Result<Option<u64>, u64> {
                    match h(id, v) % 5 {
                        0 => Err(h(id + 1, v)),
                        1 | 2 => Ok(None),
                        _ => Ok(Some(h(id + 2, v))),
                    }
                };
                (
                    Box::pin(s.try_filter_map(move |t| {
                        hit(&g, id, t.v);
                        let r = match f(t.v) {
                            Ok(o) => Ok(o.map(|v| c.tok(v))),
                            Err(e) => Err(c.tok(e)),
                        };
                        fut(&world, r)
                    })),
                    Box::new(it.filter_map(move |m| match m {
                        Ok(v) => {
                            hit(&w, id, v);
                            f(v).transpose()
                        }
                        Err(e) => Some(Err(e)),
                    })),
                )
            }
            36 => {
                let inner = move |v: u64| -> Vec<M> { (0..h(id, v) % 4).map(|i| flipped(i as u32 + id, Ok(v))).collect() };
                (
                    Box::pin(
                        s.map_ok(move |t| {
                            hit(&g, id, t.v);
                            let v: Vec<R> = inner(t.v).into_iter().map(|m| to(&c, m)).collect();
                            LStream::gen(&world, "inner", v)
                        })
                        .try_flatten(),
                    ),
                    Box::new(it.flat_map(move |m| match m {
                        Ok(v) => {
                            hit(&w, id, v);
                            inner(v)
                        }
                        Err(e) => vec![Err(e)],
                    })),
                )
            }
            37 | 38 => {
                // predicate may fail as well
                let f = move |v: u64| -> Result<bool, u64> {
                    match h(id, v) % 8 {
                        0 => Err(h(id + 1, v)),
                        x => Ok(x < 5),
                    }
                };
                let c2 = c.clone();
                let call = move |t: &Tok| {
                    hit(&g, id, t.v);
                    fut(&world, f(t.v).map_err(|e| c2.tok(e)))
                };
                let mut over = false;
                let mut it = it.fuse();
                if k == 37 {
                    let m = std::iter::from_fn(move || {
                        if over {
                            return None;
                        }
                        match it.next()? {
                            Err(e) => Some(Err(e)),
                            Ok(v) => {
                                hit(&w, id, v);
                                match f(v) {
                                    Err(e) => Some(Err(e)),
                                    Ok(true) => Some(Ok(v)),
                                    Ok(false) => {
                                        over = true;
                                        None
                                    }
                                }
                            }
                        }
                    });
                    (Box::pin(s.try_take_while(call)), Box::new(m.fuse()))
                } else {
                    let m = std::iter::from_fn(move || loop {
                        let m = it.next()?;
                        if over {
                            return Some(m);
                        }
                        match m {
                            Err(e) => return Some(Err(e)),
                            Ok(v) => {
                                hit(&w, id, v);
                                match f(v) {
                                    Err(e) => return Some(Err(e)),
                                    Ok(true) => {}
                                    Ok(false) => {
                                        over = true;
                                        return Some(Ok(v));
                                    }
                                }
                            }
                        }
                    });
                    (Box::pin(s.try_skip_while(call)), Box::new(m.fuse()))
                }
            }
            39 => {
                let n = case.range(1, 4);
                let f = move |v: &[u64]| -> u64 { h(id, v.iter().fold(v.len() as u64, |a, m| a * 31 + m)) };
                let mut it = it.fuse();
                (
                    Box::pin(s.try_chunks(n).map(move |r| {
                        let vs = |v: &[Tok]| v.iter().map(|t| t.v).collect::<Vec<_>>();
                        match r {
                            Ok(v) => {
                                assert!(!v.is_empty() && v.len() <= n, "chunk of {} for {n}", v.len());
                                Ok(c.tok(f(&vs(&v))))
                            }
                            Err(e) => Err(c.tok(h(id, f(&vs(&e.0)) * 7 + e.1.v))),
                        }
                    })),
                    Box::new(
                        std::iter::from_fn(move || {
                            let mut v = vec![];
                            loop {
                                match it.next() {
                                    Some(Ok(x)) => {
                                        v.push(x);
                                        if v.len() == n {
                                            return Some(Ok(f(&v)));
                                        }
                                    }
                                    Some(Err(e)) => return Some(Err(h(id, f(&v) * 7 + e))),
                                    None if v.is_empty() => return None,
                                    None => return Some(Ok(f(&v))),
                                }
                            }
                        })
                        .fuse(),
                    ),
                )
            }
            40 => (Box::pin(s.into_stream()), it),
            41 => {
                let u = stream::unfold(s, |mut s| async move { s.try_next().await.transpose().map(|x| (x, s)) }.boxed_local());
                (Box::pin(u), it)
            }
            42 => {
                let n = case.range(1, 3);
                self.loose = self.next;
                let s = s.map_ok(move |t| fut(&world, to(&c, flipped(id, Ok(t.v))))).try_buffered(n);
                // An error of the source overtakes futures in progress, so keep only error-free sources exact.
                let u = s;
                let v: Vec<M> = it.collect();
                if v.iter().any(|m| m.is_err()) {
                    // not comparable here (checked under C07): drop it
                    drop(u);
                    let items: Vec<R> = v.iter().map(|m| to(&case, *m)).collect();
                    return (Box::pin(stream::iter(items)), Box::new(v.into_iter()));
                }
                (Box::pin(u), Box::new(v.into_iter().map(move |m| flipped(id, m))))
            }
            _ => {
                // try_ready_chunks: only the concatenation is determined.
                let n = case.range(1, 4);
                let c3 = c.clone();
                let s = s.try_ready_chunks(n).map(move |r| {
                    let v: Vec<R> = match r {
                        Ok(v) => {
                            assert!(!v.is_empty() && v.len() <= n, "chunk of {} for {n}", v.len());
                            v.into_iter().map(Ok).collect()
                        }
                        Err(e) => {
                            assert!(e.0.len() < n, "full chunk with an error");
                            let _ = &c3;
                            e.0.into_iter().map(Ok).chain([Err(e.1)]).collect()
                        }
                    };
                    stream::iter(v)
                });
                self.loose = self.next;
                (Box::pin(s.flatten()), it)
            }
        }
    }
    fn expr(&mut self, depth: usize) -> (BS, BI) {
        let (mut s, mut it) = self.leaf();
        if depth > 0 {
            for _ in 0..self.case.weighted(&[1, 2, 3, 3, 2]) {
                (s, it) = self.wrap(s, it, depth);
            }
        }
        (s, it)
    }
}

fn run_pipe(case: &Case, tries: bool) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    let mut g = Gen {
        case,
        world: world.clone(),
        got: Default::default(),
        want: Default::default(),
        next: 0,
        loose: 0,
        tries,
        leaves: vec![],
        ops: vec![],
        early: false,
    };
    let (s, it) = g.expr(2);
    case.check(g.got.borrow().is_empty() && g.leaves.iter().all(|l| !l.started()), || "work done before the first poll".into());
    let id = g.id();
    let (got, want) = (g.got.clone(), g.want.clone());
    let w2 = world.clone();
    let c = case.clone();
    let tk = if tries { case.below(15) } else { case.below(9) };
    case.log(|| format!("terminal {tk}"));
    // (real, model): both reduced to a list of numbers
    let (mut fut_, model): (BF<Vec<u64>>, Box<dyn FnOnce() -> Vec<u64>>) = match tk {
        0 => (
            Box::pin(s.collect::<Vec<R>>().map(|v| v.iter().map(val).collect())),
            Box::new(move || it.map(|m| key(&m)).collect()),
        ),
        1 => {
            let mut s = s;
            let n = case.below(8);
            (
                Box::pin(async move {
                    let mut v = vec![];
                    for _ in 0..n {
                        match s.next().await {
                            Some(r) => v.push(val(&r)),
                            None => break,
                        }
                    }
                    v
                }),
                Box::new(move || it.take(n).map(|m| key(&m)).collect()),
            )
        }
        2 => (
            Box::pin(
                s.fold(vec![3u64], move |mut a, r| {
                    hit(&got, id, val(&r));
                    let x = a[0] * 31 + val(&r);
                    a[0] = x % 1_000_003;
                    fut(&w2, a)
                }),
            ),
            Box::new(move || {
                vec![it.fold(3u64, |a, m| {
                    hit(&want, id, key(&m));
                    (a * 31 + key(&m)) % 1_000_003
                })]
            }),
        ),
        3 => {
            let out = Rc::new(RefCell::new(vec![]));
            let o2 = out.clone();
            (
                Box::pin(
                    s.for_each(move |r| {
                        o2.borrow_mut().push(val(&r));
                        fut(&w2, ())
                    })
                    .map(move |()| out.borrow().clone()),
                ),
                Box::new(move || it.map(|m| key(&m)).collect()),
            )
        }
        4 => (Box::pin(s.count().map(|n| vec![n as u64])), Box::new(move || vec![it.count() as u64])),
        5 | 6 => {
            let all = tk == 5;
            let mut it = it;
            let f = move |r: R| {
                hit(&got, id, val(&r));
                fut(&w2, pred(id, val(&r)) == all)
            };
            let real: BF<Vec<u64>> =
                if all { Box::pin(s.all(f).map(|b| vec![b as u64])) } else { Box::pin(s.any(f).map(|b| vec![b as u64])) };
            (
                real,
                Box::new(move || {
                    let g = |m: M| {
                        hit(&want, id, key(&m));
                        pred(id, key(&m)) == all
                    };
                    vec![if all { it.all(g) } else { it.any(g) } as u64]
                }),
            )
        }
        7 => (
            Box::pin(s.map(|r| (val(&r), val(&r) + 1)).unzip::<u64, u64, Vec<u64>, Vec<u64>>().map(|(a, b)| [a, b].concat())),
            Box::new(move || {
                let (a, b): (Vec<u64>, Vec<u64>) = it.map(|m| (key(&m), key(&m) + 1)).unzip();
                [a, b].concat()
            }),
        ),
        8 => (
            Box::pin(s.map(|r| vec![val(&r), 1]).concat()),
            Box::new(move || it.flat_map(|m| vec![key(&m), 1]).collect()),
        ),
        9 => (
            Box::pin(s.try_collect::<Vec<Tok>>().map(|r| match r {
                Ok(v) => v.iter().map(|t| t.v).collect(),
                Err(e) => vec![e.v + 1_000_000],
            })),
            Box::new(move || match it.collect::<Result<Vec<u64>, u64>>() {
                Ok(v) => v,
                Err(e) => vec![e + 1_000_000],
            }),
        ),
        10 => {
            let f = move |a: u64, v: u64| -> M {
                if h(id, v) % 9 == 0 {
                    Err(h(id + 3, v))
                } else {
                    Ok((a * 31 + v) % 1_000_003)
                }
            };
            let mut it = it;
            (
                Box::pin(
                    s.try_fold(3u64, move |a, r: R| {
                        hit(&got, id, val(&r));
                        fut(&w2, r.and_then(|t| f(a, t.v).map_err(|e| c.tok(e))))
                    })
                    .map(|r| vec![match r {
                        Ok(v) => v,
                        Err(e) => e.v + 1_000_000,
                    }]),
                ),
                Box::new(move || {
                    let r: M = it.try_fold(3u64, |a, m| {
                        hit(&want, id, key(&m));
                        m.and_then(|v| f(a, v))
                    });
                    vec![key(&r)]
                }),
            )
        }
        11 => {
            let f = move |v: u64| -> Result<(), u64> {
                if h(id, v) % 6 == 0 {
                    Err(h(id + 3, v))
                } else {
                    Ok(())
                }
            };
            let mut it = it;
            (
                Box::pin(
                    s.try_for_each(move |r: R| {
                        hit(&got, id, val(&r));
                        fut(&w2, r.and_then(|t| f(t.v).map_err(|e| c.tok(e))))
                    })
                    .map(|r| vec![match r {
                        Ok(()) => 0,
                        Err(e) => e.v + 1_000_000,
                    }]),
                ),
                Box::new(move || {
                    let r: Result<(), u64> = it.try_for_each(|m| {
                        hit(&want, id, key(&m));
                        m.and_then(|v| f(v))
                    });
                    vec![match r {
                        Ok(()) => 0,
                        Err(e) => e + 1_000_000,
                    }]
                }),
            )
        }
        12 | 13 => {
            let all = tk == 12;
            let f = move |t: Tok| {
                hit(&got, id, t.v);
                fut(&w2, pred(id, t.v) == all)
            };
            let fin = |r: Result<bool, Tok>| vec![match r {
                Ok(b) => b as u64,
                Err(e) => e.v + 1_000_000,
            }];
            let real: BF<Vec<u64>> = if all { Box::pin(s.try_all(f).map(fin)) } else { Box::pin(s.try_any(f).map(fin)) };
            (
                real,
                Box::new(move || {
                    for m in it {
                        match m {
                            Err(e) => return vec![e + 1_000_000],
                            Ok(v) => {
                                hit(&want, id, v);
                                let b = pred(id, v) == all;
                                if b != all {
                                    return vec![!all as u64];
                                }
                            }
                        }
                    }
                    vec![all as u64]
                }),
            )
        }
        _ => (
            Box::pin(s.map_ok(|t| vec![t.v, 1]).try_concat().map(|r| match r {
                Ok(v) => v,
                Err(e) => vec![e.v + 1_000_000],
            })),
            Box::new(move || {
                let mut out = vec![];
                for m in it {
                    match m {
                        Ok(v) => out.extend([v, 1]),
                        Err(e) => return vec![e + 1_000_000],
                    }
                }
                out
            }),
        ),
    };
    let stop = case.chance(1, 8);
    let r = if stop {
        let b = case.range(0, 6);
        drive_some(&mut p, &world, "pipeline", b, |cx| fut_.as_mut().poll(cx))
    } else {
        Some(drive(&mut p, &world, "pipeline", |cx| fut_.as_mut().poll(cx)))
    };
    if let Some(v) = r {
        let want_v = model();
        case.eq(&v, &want_v, "result of the stream pipeline");
        let (gt, wt) = (g.got.borrow(), g.want.borrow());
        for id in 1..=g.next {
            let e = vec![];
            let (a, b) = (gt.get(&id).unwrap_or(&e), wt.get(&id).unwrap_or(&e));
            if id <= g.loose {
                case.check(a.starts_with(b) || b.starts_with(a), || format!("closure {id} called with {a:?}, model {b:?}"));
            } else {
                case.check(a == b, || format!("closure {id} called with {a:?}, model {b:?}"));
            }
        }
        if g.ops.len() >= 2 && g.leaves.iter().any(|l| l.items() >= 2) {
            case.nontrivial();
        }
    }
    for o in &g.ops {
        case.label(o);
    }
    drop(fut_);
    world.clear();
    drop(g);
    case.no_leaks("pipeline");
}

fn pipe_plain(case: &Case) {
    run_pipe(case, false)
}
fn pipe_try(case: &Case) {
    run_pipe(case, true)
}

include!("../inc/stream_more.rs");

fn main() {
    main_for(vec![
        Prop {
            id: "C12",
            rule: "pipe: random expressions of stream adaptors (up to 3+3 levels, chained/zipped/flattened) ended by a random consumer, over scripted sources and asynchronous closures; model = the same expression over lazy iterators, comparing result and the argument sequence of each closure. peek: histories on a peekable stream; until: take_until with stop future; ready_chunks: greedy chunking; panics: catch_unwind. Non-trivial: >=2 adaptors and a source with >=2 items.",
            subs: vec![
                sub("pipe", pipe_plain, 3_000_000, 60_000_000).miri(64, 2000),
                sub("peek", peeks, 500_000, 5_000_000).miri(24, 500),
                sub("until", until, 500_000, 5_000_000).miri(24, 500),
                sub("ready_chunks", ready_chunks, 500_000, 5_000_000),
                sub("panics", panics, 250_000, 2_500_000).miri(16, 300),
            ],
        },
        Prop {
            id: "C13",
            rule: "pipe: as C12, over streams of results with all fallible adaptors and consumers (errors pass through adaptors, end consumers at the first one). Non-trivial: >=2 adaptors and a source with >=2 items.",
            subs: vec![sub("pipe", pipe_try, 4_000_000, 80_000_000).miri(64, 2000)],
        },
        c14(),
    ]);
}
