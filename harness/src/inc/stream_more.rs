fn peeks(case: &Case) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    let n = case.len(8) as u64;
    let s = LStream::gen(&world, "s", (0..n).map(|i| case.tok(i)).collect::<Vec<_>>());
    let st = s.st.clone();
    let mut s = Box::pin(s.peekable());
    let mut model: VecDeque<u64> = (0..n).collect();
    let mut ops = 0;
    let mut over = false;
    for _ in 0..case.range(2, 20) {
        let left = model.len();
        let (lo, hi) = s.size_hint();
        case.check(lo <= left && hi.map_or(true, |h| left <= h), || format!("size_hint ({lo}, {hi:?}), {left} left"));
        if s.is_terminated() {
            case.check(left == 0, || "terminated with items left".into());
        }
        ops += 1;
        match case.below(6) {
            0 | 1 => {
                let r = drive(&mut p, &world, "next", |cx| s.as_mut().poll_next(cx));
                case.log(|| format!("next -> {r:?}"));
                case.eq(r.map(|t| t.v), model.pop_front(), "next");
            }
            2 => {
                let r = drive(&mut p, &world, "peek", |cx| s.as_mut().poll_peek(cx).map(|o| o.map(|t| t.v)));
                case.eq(r, model.front().copied(), "peek");
            }
            3 => {
                let c = case.clone();
                let r = drive(&mut p, &world, "peek_mut", |cx| {
                    s.as_mut().poll_peek_mut(cx).map(|o| {
                        o.map(|t| {
                            let old = t.v;
                            *t = c.tok(old + 50);
                            old
                        })
                    })
                });
                case.eq(r, model.front().copied(), "peek_mut");
                if let Some(x) = model.front_mut() {
                    *x += 50;
                }
            }
            4 => {
                let yes = case.bool();
                let mut f = Box::pin(s.as_mut().next_if(|_| yes));
                case.check(!f.is_terminated(), || "next_if terminated at start".into());
                let r = drive(&mut p, &world, "next_if", |cx| f.as_mut().poll(cx));
                case.check(f.is_terminated(), || "next_if not terminated at its end".into());
                let want = if yes { model.pop_front() } else { None };
                case.eq(r.map(|t| t.v), want, "next_if");
            }
            _ => {
                let e = case.tok(case.below(4) as u64);
                let mut f = Box::pin(s.as_mut().next_if_eq(&e));
                let r = drive(&mut p, &world, "next_if_eq", |cx| f.as_mut().poll(cx));
                let want = if model.front() == Some(&e.v) { model.pop_front() } else { None };
                case.eq(r.map(|t| t.v), want, "next_if_eq");
            }
        }
        over |= st.done();
    }
    if ops > 3 && n >= 2 {
        case.nontrivial();
    }
    case.label_if(over, "to_the_end");
    drop(s);
    world.clear();
    case.no_leaks("peekable");
}

fn until(case: &Case) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    let n = case.len(6) as u64;
    let s = LStream::gen(&world, "s", (0..n).map(|i| case.tok(i)).collect::<Vec<_>>());
    let sst = s.st.clone();
    let f = LFut::gen(&world, "stop", case.tok(900));
    let fst = f.st.clone();
    let mut s = Box::pin(Box::pin(s).take_until(Box::pin(f)));
    let take_at = if case.chance(1, 4) { case.below(4) } else { 99 };
    let mut taken = None;
    let mut got = 0u64;
    let mut polls = 0;
    loop {
        if polls == take_at && taken.is_none() && !fst.done() && !sst.done() {
            // the stream then runs to its own end
            let t = s.as_mut().get_mut().take_future();
            case.check(t.is_some(), || "take_future gives nothing although the future is unresolved".into());
            taken = t;
            case.label("future_taken");
        }
        let (lo, hi) = s.size_hint();
        let w = world.waiting();
        if p.woken() && (w.is_empty() || !case.chance(1, 3)) || !w.is_empty() && case.chance(1, 10) {
            polls += 1;
            let before = fst.done();
            let r = p.poll(|cx| s.as_mut().poll_next(cx));
            case.log(|| format!("poll_next -> {r:?}"));
            match r {
                Poll::Ready(Some(t)) => {
                    case.eq(t.v, got, "item");
                    got += 1;
                    case.check(!fst.done(), || "item after the stop future resolved".into());
                    case.check(hi.map_or(true, |h| h >= 1), || "item although the upper bound was 0".into());
                }
                Poll::Ready(None) => {
                    case.check(fst.done() || got == n, || format!("ended after {got} of {n} items, stop future unresolved"));
                    let _ = (lo, before);
                    break;
                }
                Poll::Pending => {
                    case.check(!fst.done(), || "pending although the stop future resolved".into());
                    if !p.woken() {
                        case.check(sst.blocked(), || "idle although the stream can make progress".into());
                        case.check(taken.is_some() || fst.blocked(), || "idle although the stop future can make progress".into());
                    }
                }
            }
        } else if !w.is_empty() {
            world.fire(w[case.below(w.len())]);
        } else {
            case.fail("take_until: stalled (lost wakeup)");
        }
    }
    let stopped_by = fst.done();
    case.check(s.is_terminated(), || "take_until: not terminated after its end".into());
    let r = s.as_mut().get_mut().take_result();
    case.eq(r.map(|t| t.v), if stopped_by { Some(900) } else { None }, "take_result");
    case.check(s.as_mut().get_mut().take_result().is_none(), || "result taken twice".into());
    if got > 0 {
        case.nontrivial();
    }
    case.label_if(stopped_by, "stopped");
    drop(s);
    drop(taken);
    world.clear();
    case.no_leaks("take_until");
}

/// Chunks hold everything that was ready, and no more than asked for.
fn ready_chunks(case: &Case) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    let n = case.len(10) as u64;
    let cap = case.big(1, 4, 12);
    let s = LStream::gen(&world, "s", (0..n).map(|i| case.tok(i)).collect::<Vec<_>>());
    let st = s.st.clone();
    let mut s = Box::pin(s.ready_chunks(cap));
    let mut next = 0u64;
    let mut chunks = 0;
    loop {
        let before = st.items();
        let r = drive(&mut p, &world, "ready_chunks", |cx| s.as_mut().poll_next(cx));
        let Some(v) = r else { break };
        case.log(|| format!("chunk {v:?}"));
        chunks += 1;
        case.check(!v.is_empty() && v.len() <= cap, || format!("chunk of {} items, capacity {cap}", v.len()));
        for t in &v {
            case.eq(t.v, next, "item order");
            next += 1;
        }
        case.eq(st.items() - before, v.len() as u64, "items taken from the source for this chunk");
        if v.len() < cap {
            // Short only because nothing more was ready.
            case.check(st.done() || st.blocked() || p.flag.total.load(std::sync::atomic::Ordering::SeqCst) > 0, || "short chunk although more was ready".into());
        }
    }
    case.eq(next, n, "all items");
    case.check(st.done(), || "ended before the source".into());
    case.check(s.is_terminated(), || "not terminated after its end".into());
    if chunks >= 2 && cap >= 2 {
        case.nontrivial();
    }
    drop(s);
    world.clear();
    case.no_leaks("ready_chunks");
}

fn panics(case: &Case) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    let n = case.range(0, 5) as u64;
    let at = case.range(0, n as usize) as u64;
    let mut script = VecDeque::new();
    for i in 0..n {
        if case.bool() {
            script.push_back(SStep::Gate(Gate::gen(&world)));
        }
        if i == at {
            script.push_back(SStep::Panic(77));
        }
        script.push_back(SStep::Item(case.tok(i)));
    }
    let s = LStream::new(&world, "s", script);
    let mut s = Box::pin(AssertUnwindSafe(s).catch_unwind());
    let mut got = vec![];
    loop {
        let r = drive(&mut p, &world, "catch_unwind", |cx| s.as_mut().poll_next(cx));
        match r {
            None => break,
            Some(Ok(t)) => got.push(t.v),
            Some(Err(e)) => {
                case.eq(e.downcast_ref::<Injected>().map(|i| i.0), Some(77), "payload");
                got.push(77);
                // documented: after the panic the stream ends
                let r = p.poll(|cx| s.as_mut().poll_next(cx));
                case.check(matches!(r, Poll::Ready(None)), || "not ended after a panic".into());
                break;
            }
        }
    }
    let want: Vec<u64> = if at < n { (0..at).chain([77]).collect() } else { (0..n).collect() };
    case.eq(got, want, "items until the panic");
    case.nontrivial();
    drop(s);
    world.clear();
    case.no_leaks("catch_unwind");
}

// ------------------------------------------------------------------ C14

type FS = Pin<Box<dyn FusedStream<Item = R>>>;

/// A stream with an exact model of its items whose hints and flags are checked.
fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "one adaptor (chosen out of all that report a size or a termination flag) over scripted sources with honest but loose hints; at every step the hint must bracket the number of items still to come (counted afterwards), a set termination flag means that nothing comes any more, and after the end the flag is set and further polls (where allowed) end again. Futures: the flag is set exactly after completion. channels: histories of sends, receives, closes and drops, hints and flags against the number of messages in the channel. Non-trivial: >=2 items.",
        subs: vec![
            sub("streams", hints, 4_000_000, 60_000_000).miri(54, 1000),
            sub("futures", fused_futures, 2_500_000, 25_000_000).miri(16, 300),
            sub("channels", channel_hints, 200_000, 2_000_000).miri(12, 200),
            sub("huge", huge_hints, 20_000, 100_000),
        ],
    }
}

fn build(g: &mut Gen<'_>, k: usize) -> FS {
    let case = g.case.clone();
    let c = case.clone();
    let world = g.world.clone();
    let id = g.id();
    let items = g.items();
    let src = |g: &mut Gen<'_>| {
        let v = g.items();
        g.lstream(&v)
    };
    let s = g.lstream(&items);
    let w2 = world.clone();
    match k {
        0 => Box::pin(s.map(|r| r)),
        1 => Box::pin(s.enumerate().map(|(_, r)| r)),
        2 => Box::pin(s.filter(move |r| fut(&world, pred(id, val(r))))),
        3 => Box::pin(s.filter_map(move |r| { let k = pred(id, val(&r)); fut(&world, if k { Some(r) } else { None }) })),
        4 => Box::pin(s.then(move |r| fut(&world, r))),
        5 => Box::pin(s.flat_map(move |r| { let n = h(id, val(&r)) % 3; let v: Vec<R> = (0..n).map(|i| to(&c, Ok(i))).collect(); LStream::gen(&world, "inner", v) })),
        6 => Box::pin(s.scan(0u64, move |st, r| { let k = h(id, st + val(&r)) % 4 != 0; fut(&world, if k { Some((st + 1, r)) } else { None }) })),
        7 => Box::pin(s.skip_while(move |r| fut(&world, pred(id, val(r))))),
        8 => Box::pin(s.take_while(move |r| fut(&world, pred(id, val(r))))),
        9 => { let n = case.below(5); Box::pin(s.take(n)) }
        10 => { let n = case.below(5); Box::pin(s.skip(n)) }
        11 => { let s2 = src(g); Box::pin(s.chain(s2)) }
        12 => { let s2 = src(g); Box::pin(s.zip(s2).map(|(a, _)| a)) }
        13 => Box::pin(s.peekable()),
        14 => Box::pin(s.fuse()),
        15 => Box::pin(s.inspect(|_| ())),
        16 => { let n = case.big(1, 4, 12); Box::pin(s.chunks(n).map(move |v| v.into_iter().next().unwrap())) }
        17 => { let n = case.big(1, 4, 12); Box::pin(s.ready_chunks(n).map(move |v| v.into_iter().next().unwrap())) }
        18 => { let f = fut(&world, ()); Box::pin(s.take_until(f)) }
        19 => { let n = *case.pick(&[None, Some(1), Some(2), Some(3)]); Box::pin(s.map(move |r| fut(&world, r)).buffered(n)) }
        20 => { let n = *case.pick(&[None, Some(1), Some(2), Some(3)]); Box::pin(s.map(move |r| fut(&world, r)).buffer_unordered(n)) }
        21 => { let s2 = src(g); Box::pin(stream::select(s, s2)) }
        22 => { let s2 = src(g); Box::pin(stream::select_all(vec![s.boxed_local(), s2.boxed_local()])) }
        23 => { let s2 = src(g); Box::pin(stream::select_with_strategy(s, s2, |p: &mut stream::PollNext| p.toggle())) }
        24 => Box::pin(s.map_ok(|t| t)),
        25 => Box::pin(s.and_then(move |t| { let x = flipped(id, Ok(t.v)); fut(&world, to(&c, x)) })),
        26 => Box::pin(s.or_else(move |t| { let x = flipped(id, Err(t.v)); fut(&world, to(&c, x)) })),
        27 => Box::pin(s.try_filter(move |t| fut(&world, pred(id, t.v)))),
        28 => Box::pin(s.try_filter_map(move |t| { let k = h(id, t.v) % 3; fut(&world, match k { 0 => Ok(None), 1 => Err(t), _ => Ok(Some(t)) }) })),
        29 => Box::pin(s.map_ok(move |t| { let n = h(id, t.v) % 3; let v: Vec<R> = (0..n).map(|i| to(&c, flipped(id, Ok(i)))).collect(); LStream::gen(&world, "inner", v) }).try_flatten()),
        30 => Box::pin(s.try_take_while(move |t| { let k = h(id, t.v) % 5; let r = match k { 0 => Err(c.tok(1)), 1 => Ok(false), _ => Ok(true) }; fut(&world, r) })),
        31 => Box::pin(s.try_skip_while(move |t| { let k = h(id, t.v) % 5; let r = match k { 0 => Err(c.tok(1)), 1 => Ok(false), _ => Ok(true) }; fut(&world, r) })),
        32 => { let n = case.big(1, 4, 12); Box::pin(s.try_chunks(n).map(|r| match r { Ok(v) => Ok(v.into_iter().next().unwrap()), Err(e) => Err(e.1) })) }
        33 => { let n = case.big(1, 4, 12); Box::pin(s.try_ready_chunks(n).map(|r| match r { Ok(v) => Ok(v.into_iter().next().unwrap()), Err(e) => Err(e.1) })) }
        34 => { let n = *case.pick(&[None, Some(1), Some(2)]); Box::pin(Fuse2(Box::pin(s.map_ok(move |t| fut(&world, Ok(t))).try_buffered(n)), false)) }
        35 => { let n = *case.pick(&[None, Some(1), Some(2)]); Box::pin(Fuse2(Box::pin(s.map_ok(move |t| fut(&world, Ok(t))).try_buffer_unordered(n)), false)) }
        36 => Box::pin(s.err_into::<Tok>().inspect_ok(|_| ()).inspect_err(|_| ()).map_err(|e| e)),
        37 => Box::pin(s.into_stream()),
        38 => { let m = items.first().copied().unwrap_or(Ok(1)); drop(s); Box::pin(stream::once(fut(&world, to(&c, m)))) }
        39 => { drop(s); let n = items.len() as u64; Box::pin(stream::unfold(0u64, move |i| { let r = if i < n { Some((to(&c, Ok(i)), i + 1)) } else { None }; fut(&world, r) })) }
        40 => { drop(s); let n = items.len() as u64; Box::pin(Fuse2(Box::pin(stream::try_unfold(0u64, move |i| { let x = flipped(id, Ok(i)); let r: Result<Option<(Tok, u64)>, Tok> = if i < n { to(&c, x).map(|t| Some((t, i + 1))) } else { Ok(None) }; fut(&world, r) })), false)) }
        41 => { drop(s); Box::pin(stream::empty()) }
        42 => { drop(s); let f = fut(&w2, to(&c, Ok(3))); Box::pin(f.into_stream()) }
        43 => Box::pin(fut(&w2, s).flatten_stream()),
        44 => { let f: LFut<Result<LStream<R>, Tok>> = fut(&w2, if case.bool() { Ok(s) } else { Err(c.tok(5)) }); Box::pin(futures::future::TryFutureExt::try_flatten_stream(f)) }
        45 => { let n = *case.pick(&[None, Some(1), Some(2)]); Box::pin(s.flat_map_unordered(n, move |r| { let n = h(id, val(&r)) % 3; let v: Vec<R> = (0..n).map(|i| to(&c, Ok(i))).collect(); LStream::gen(&world, "inner", v).boxed_local() })) }
        46 => { let v: Vec<_> = items.iter().map(|m| fut(&w2, to(&c, *m))).collect(); drop(s); Box::pin(v.into_iter().collect::<stream::FuturesUnordered<_>>()) }
        47 => { let v: Vec<_> = items.iter().map(|m| fut(&w2, to(&c, *m))).collect(); drop(s); Box::pin(v.into_iter().collect::<stream::FuturesOrdered<_>>()) }
        48 => { let l = case.bool(); let s2 = src(g); let e: future::Either<_, LStream<R>> = if l { s.left_stream() } else { future::Either::Right(s2) }; Box::pin(e) }
        49 => { let mut u = Some(s); let _ = &mut u; let s = u.unwrap(); Box::pin(Fuse2(Box::pin(AssertUnwindSafe(s).catch_unwind().map(|r| r.unwrap())), false)) }
        50 => { let (tx, rx) = futures::channel::mpsc::unbounded(); for m in &items { tx.unbounded_send(to(&c, *m)).unwrap(); } drop((tx, s)); Box::pin(rx) }
        51 => Box::pin(stream::unfold(Box::pin(s), |mut s| async move { s.next().await.map(|x| (x, s)) }.boxed_local())),
        52 => { let s2 = src(g); let s = Box::pin(s); let s2 = Box::pin(s2); Box::pin(Fuse2(futures::stream_select!(s, s2), false)) }
        53 => Box::pin(stream::poll_immediate(s).map(move |p| match p { Poll::Ready(r) => r, Poll::Pending => to(&c, Ok(0)) })),
        54 => {
            drop(s);
            let n = items.len() as u64;
            let bad = case.below(items.len() + 3) as u64;
            let it = stream::iter(0..n).map(move |i| if i == bad { std::panic::panic_any(vh::case::Injected(1)) } else { i }).filter(|_| future::ready(true)); // (no lower bound: a panic ends it early)
            Box::pin(it.fuse().catch_unwind().map(move |r| to(&c, r.map_err(|_| 7))))
        }
        _ => Box::pin(s.flat_map(move |r| stream::once(fut(&world, r)))),
    }
}

/// Adds a flag to a stream that has none (its own flag is then not judged).
struct Fuse2<S>(S, bool);
impl<S: Stream + Unpin> Stream for Fuse2<S> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        let r = self.0.poll_next_unpin(cx);
        self.1 |= matches!(r, Poll::Ready(None));
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<S: Stream + Unpin> FusedStream for Fuse2<S> {
    fn is_terminated(&self) -> bool {
        self.1
    }
}

/// The same object behind one more pointer or wrapper.
struct ByMut<S>(std::cell::RefCell<S>);
impl<S: Stream + Unpin> Stream for ByMut<S> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        let mut r = self.0.get_mut();
        <&mut S as Stream>::poll_next(Pin::new(&mut r), cx)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let mut b = self.0.borrow_mut();
        <&mut S as Stream>::size_hint(&&mut *b)
    }
}
impl<S: FusedStream + Unpin> FusedStream for ByMut<S> {
    fn is_terminated(&self) -> bool {
        let mut b = self.0.borrow_mut();
        <&mut S as FusedStream>::is_terminated(&&mut *b)
    }
}
impl<S: Future + Unpin> Future for ByMut<S> {
    type Output = S::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<S::Output> {
        Pin::new(self.0.get_mut()).poll(cx)
    }
}
impl<S: FusedFuture + Unpin> FusedFuture for ByMut<S> {
    fn is_terminated(&self) -> bool {
        let mut b = self.0.borrow_mut();
        <&mut S as FusedFuture>::is_terminated(&&mut *b)
    }
}
/// The stream with a sink beside it.
struct WithSink(FS);
impl Stream for WithSink {
    type Item = <FS as Stream>::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.0.as_mut().poll_next(cx)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl FusedStream for WithSink {
    fn is_terminated(&self) -> bool {
        self.0.is_terminated()
    }
}
impl futures::sink::Sink<u8> for WithSink {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, _: u8) -> Result<(), ()> {
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
}
fn layered(case: &Case, s: FS) -> FS {
    use futures_test::stream::StreamTestExt;
    match case.below(15) {
        10 => Box::pin(WithSink(s).buffer(case.below(3))),
        11 => Box::pin(WithSink(s).sink_map_err(|()| 1u8)),
        12 => Box::pin(WithSink(s).sink_err_into::<()>()),
        13 => Box::pin(WithSink(s).with(|x: u16| future::ready(Ok::<u8, ()>(x as u8)))),
        14 => Box::pin(WithSink(s).with_flat_map(|x: u16| stream::iter([Ok::<u8, ()>(x as u8)]))),
        0 => Box::pin(Box::new(s)),
        1 => Box::pin(ByMut(std::cell::RefCell::new(s))),
        3 => Box::pin(s.interleave_pending()),
        4 => Box::pin(s.assert_unmoved()),
        2 => {
            // (Its flag is that of the wrapper.)
            Box::pin(AssertUnwindSafe(s).fuse())
        }
        _ => s,
    }
}

/// Bounds of a stream that does not give any.
struct NoBounds;
impl Stream for NoBounds {
    type Item = u64;
    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<u64>> {
        Poll::Ready(Some(1))
    }
}

const KINDS: [&str; 56] = [
    "map", "enumerate", "filter", "filter_map", "then", "flat_map", "scan", "skip_while", "take_while", "take", "skip",
    "chain", "zip", "peekable", "fuse", "inspect", "chunks", "ready_chunks", "take_until", "buffered", "buffer_unordered",
    "select", "select_all", "select_with_strategy", "map_ok", "and_then", "or_else", "try_filter", "try_filter_map",
    "try_flatten", "try_take_while", "try_skip_while", "try_chunks", "try_ready_chunks", "try_buffered",
    "try_buffer_unordered", "err_into", "into_stream", "once", "unfold", "try_unfold", "empty", "future.into_stream",
    "flatten_stream", "try_flatten_stream", "flat_map_unordered", "FuturesUnordered", "FuturesOrdered", "either",
    "catch_unwind", "mpsc", "unfold(stream)", "stream_select!", "poll_immediate", "catch_unwind(fuse)", "flat_map(once)",
];

fn hints(case: &Case) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    let tries = case.bool();
    let mut g = Gen {
        case,
        world: world.clone(),
        got: Default::default(),
        want: Default::default(),
        next: 0,
        loose: 0,
        tries,
        leaves: vec![],
        ops: vec![],
        early: case.bool(),
    };
    let k = case.below(KINDS.len());
    let what = KINDS[k];
    case.log(|| what.to_string());
    let s = build(&mut g, k);
    let mut s = layered(case, s);
    // (hint, flag, items before)
    let mut seen: Vec<((usize, Option<usize>), bool, usize)> = vec![];
    let mut n = 0usize;
    loop {
        let (hint, flag) = (s.size_hint(), s.is_terminated());
        seen.push((hint, flag, n));
        let w = world.waiting();
        if flag {
            // "should no longer be polled": believe it.
            break;
        }
        if p.woken() && (w.is_empty() || !case.chance(1, 3)) {
            match p.poll(|cx| s.as_mut().poll_next(cx)) {
                Poll::Ready(Some(r)) => {
                    case.log(|| format!("{hint:?} item {r:?}"));
                    n += 1
                }
                Poll::Ready(None) => {
                    case.log(|| format!("{hint:?} end"));
                    case.check(s.is_terminated(), || format!("{what}: not terminated after its end"));
                    let (lo, hi) = s.size_hint();
                    case.check(lo == 0, || format!("{what}: hint ({lo}, {hi:?}) after its end"));
                    break;
                }
                Poll::Pending => {}
            }
        } else if !w.is_empty() {
            world.fire(w[case.below(w.len())]);
        } else {
            case.fail(format!("{what}: stalled (lost wakeup)"));
        }
    }
    for ((lo, hi), flag, before) in &seen {
        let left = n - before;
        case.check(*lo <= left && hi.map_or(true, |h| left <= h), || {
            format!("{what}: size_hint ({lo}, {hi:?}) with {left} items still to come")
        });
        case.check(!flag || left == 0, || format!("{what}: terminated with {left} items to come"));
    }
    // Nothing comes out after the flag. (Sources that are at their end must
    // not be polled, so this is tried only while they have not been asked.)
    let open = |g: &Gen<'_>| !g.leaves.is_empty() && (k == 11 && !g.leaves[1].done() || g.leaves.iter().all(|l| !l.done()));
    // (These have no source of their own.)
    let solo = matches!(k, 38..=42 | 46 | 47 | 50 | 54);
    if s.is_terminated() && (solo || g.early && open(&g)) {
        case.label("early_flag");
        for _ in 0..20 {
            let w = world.waiting();
            if p.woken() && (solo || open(&g)) {
                match catch_unwind(AssertUnwindSafe(|| p.poll(|cx| s.as_mut().poll_next(cx)))) {
                    Ok(Poll::Ready(Some(r))) => case.fail(format!("{what}: gave {r:?} after it was terminated")),
                    Ok(Poll::Ready(None)) => break,
                    Ok(Poll::Pending) => {}
                    Err(e) if e.is::<vh::case::Failed>() => std::panic::resume_unwind(e),
                    Err(_) => break,
                }
            } else if !w.is_empty() {
                world.fire(w[case.below(w.len())]);
            } else {
                break;
            }
        }
    }
    // A flag set early must not hide items: the sources have to be exhausted
    // or cut off on purpose.
    if s.is_terminated() && !matches!(k, 6 | 8 | 9 | 12 | 18 | 30 | 38 | 39 | 40 | 41 | 42 | 44 | 46 | 47 | 48 | 50 | 54) {
        for l in &g.leaves {
            case.check(l.done() || l.dropped() || l.spent(), || format!("{what}: terminated before its source ended"));
        }
    }
    case.label(what);
    if n >= 2 {
        case.nontrivial();
    }
    drop(s);
    world.clear();
    drop(g);
    case.no_leaks(what);
}

/// The bounds and flags of both ends of channels.
fn channel_hints(case: &Case) {
    use futures::channel::{mpsc, oneshot};
    let mut p = Poller::new(case);
    if case.chance(1, 4) {
        let (tx, rx) = oneshot::channel::<Tok>();
        let (mut tx, mut rx, mut closed, mut value) = (Some(tx), rx, false, false);
        for _ in 0..case.range(1, 8) {
            // Its value, or that there is none, is known: nothing more comes.
            let gone = tx.is_none();
            match case.below(5) {
                0 => value |= tx.take().map_or(false, |t| t.send(case.tok(1)).is_ok()),
                1 => drop(tx.take()),
                2 => {
                    rx.close();
                    closed = true;
                }
                3 if value || !gone && !closed => case.check(!rx.is_terminated(), || "oneshot: terminated before it completed".into()),
                _ => {
                    if p.poll(|cx| rx.poll_unpin(cx)).is_ready() {
                        case.check(rx.is_terminated(), || "oneshot: not terminated after it completed".into());
                        break;
                    }
                    case.check(!rx.is_terminated(), || "oneshot: terminated before it completed".into());
                }
            }
        }
        drop((tx, rx));
        return case.no_leaks("oneshot");
    }
    enum T {
        B(mpsc::Sender<Tok>),
        U(mpsc::UnboundedSender<Tok>),
    }
    enum X {
        B(mpsc::Receiver<Tok>),
        U(mpsc::UnboundedReceiver<Tok>),
    }
    macro_rules! on {
        ($x:expr, $r:ident => $e:expr) => {
            match $x {
                X::B($r) => $e,
                X::U($r) => $e,
            }
        };
    }
    let (t, mut rx) = if case.bool() {
        let (a, b) = mpsc::channel(case.below(4));
        (T::B(a), X::B(b))
    } else {
        let (a, b) = mpsc::unbounded();
        (T::U(a), X::U(b))
    };
    let mut txs = vec![t];
    let (mut q, mut open, mut ended, mut sent) = (0usize, true, false, 0);
    for _ in 0..case.range(2, 24) {
        open &= !txs.is_empty();
        let (lo, hi) = on!(&rx, r => r.size_hint());
        case.check(lo <= q, || format!("channel: lower bound {lo} with {q} items in it"));
        case.check(hi.map_or(true, |h| !open && h >= q), || format!("channel: upper bound {hi:?} with {q} items, open={open}"));
        let flag = on!(&mut rx, r => if case.bool() { r.is_terminated() } else { r.recv().is_terminated() });
        case.check(!flag || q == 0 && !open, || format!("channel: terminated with {q} items, open={open}"));
        case.check(!ended || flag, || "channel: not terminated after its end".into());
        match case.below(10) {
            0..=3 if !txs.is_empty() => {
                let i = case.below(txs.len());
                let ok = match &mut txs[i] {
                    T::B(t) => t.try_send(case.tok(1)).is_ok(),
                    T::U(t) => t.unbounded_send(case.tok(1)).is_ok(),
                };
                q += ok as usize;
                sent += ok as usize;
            }
            4 if !txs.is_empty() => {
                let c = match &txs[0] {
                    T::B(t) => T::B(t.clone()),
                    T::U(t) => T::U(t.clone()),
                };
                txs.push(c);
            }
            5 if !txs.is_empty() => drop(txs.swap_remove(case.below(txs.len()))),
            6 if !txs.is_empty() && case.chance(1, 2) => {
                match &mut txs[0] {
                    T::B(t) => t.close_channel(),
                    T::U(t) => t.close_channel(),
                }
                open = false;
            }
            7 if case.chance(1, 2) => {
                on!(&mut rx, r => r.close());
                open = false;
            }
            _ if !flag => match p.poll(|cx| on!(&mut rx, r => r.poll_next_unpin(cx))) {
                Poll::Ready(Some(_)) => q -= 1,
                Poll::Ready(None) => ended = true,
                Poll::Pending => {}
            },
            _ => {}
        }
    }
    if sent >= 2 {
        case.nontrivial();
    }
    drop((txs, rx));
    case.no_leaks("channel");
}

/// Forgets the output of a future, but not its flag.
struct Un<F>(F);
fn un<F: FusedFuture + 'static>(f: F) -> Pin<Box<dyn FusedFuture<Output = ()>>> {
    Box::pin(Un(f))
}
impl<F: Future> Future for Un<F> {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx).map(|_| ())
    }
}
impl<F: FusedFuture> FusedFuture for Un<F> {
    fn is_terminated(&self) -> bool {
        self.0.is_terminated()
    }
}

/// A future together with what it borrows.
struct Owning<T> {
    f: Option<Pin<Box<dyn FusedFuture<Output = ()>>>>,
    t: *mut T,
}
fn owning<T: 'static>(t: T, f: impl FnOnce(&'static mut T) -> Pin<Box<dyn FusedFuture<Output = ()>>>) -> Owning<T> {
    let t = Box::into_raw(Box::new(t));
    Owning { f: Some(f(unsafe { &mut *t })), t }
}
impl<T> Drop for Owning<T> {
    fn drop(&mut self) {
        self.f = None;
        drop(unsafe { Box::from_raw(self.t) });
    }
}
impl<T> Future for Owning<T> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.f.as_mut().unwrap().as_mut().poll(cx)
    }
}
impl<T> FusedFuture for Owning<T> {
    fn is_terminated(&self) -> bool {
        self.f.as_ref().unwrap().is_terminated()
    }
}

fn fused_futures(case: &Case) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    let mut g = Gen {
        case,
        world: world.clone(),
        got: Default::default(),
        want: Default::default(),
        next: 0,
        loose: 0,
        tries: true,
        leaves: vec![],
        ops: vec![],
        early: false,
    };
    let items = g.items();
    let s = g.lstream(&items);
    let id = g.id();
    let w = world.clone();
    let c = case.clone();
    const N: [&str; 42] = [
        "collect", "count", "fold", "for_each", "all", "any", "unzip", "concat", "try_collect", "try_fold", "try_for_each", "try_all",
        "try_any", "try_concat", "into_future", "for_each_concurrent", "try_for_each_concurrent", "map(fuse)", "then", "flatten",
        "map", "try_flatten", "and_then", "or_else", "select", "join", "try_join", "either", "option", "lazy", "shared", "maybe_done",
        "try_maybe_done", "try_into_future", "peek", "next_if", "forward", "try_forward", "lock", "lock_owned", "oneshot", "select_next_some",
    ];
    let k = case.below(N.len());
    type FF = Pin<Box<dyn FusedFuture<Output = ()>>>;
    let what = N[k];
    let r = |c: &Case, v: u64| to(c, if c.bool() { Ok(v) } else { Err(v) });
    let mut f: FF = match k {
        0 => un(s.collect::<Vec<R>>()),
        1 => un(s.count()),
        2 => un(s.fold(0u64, move |a, r| fut(&w, a + val(&r)))),
        3 => un(s.for_each(move |_| fut(&w, ()))),
        4 => un(s.all(move |r| fut(&w, pred(id, val(&r))))),
        5 => un(s.any(move |r| fut(&w, !pred(id, val(&r))))),
        6 => un(s.map(|r| (val(&r), 1u8)).unzip::<u64, u8, Vec<u64>, Vec<u8>>()),
        7 => un(s.map(|r| vec![val(&r)]).concat()),
        8 => un(s.try_collect::<Vec<Tok>>()),
        9 => un(s.try_fold(0u64, move |a, r: R| { let x = r.and_then(|t| if flipped(id, Ok(t.v)).is_ok() { Ok(a + 1) } else { Err(t) }); fut(&w, x) })),
        10 => Box::pin(s.try_for_each(move |r: R| { let x = r.and_then(|t| if flipped(id, Ok(t.v)).is_ok() { Ok(()) } else { Err(t) }); fut(&w, x) }).map(|_| ())),
        11 => un(s.try_all(move |t| fut(&w, pred(id, t.v)))),
        12 => un(s.try_any(move |t| fut(&w, !pred(id, t.v)))),
        13 => Box::pin(s.map_ok(|t| vec![t.v]).try_concat().map(|_| ())),
        14 => un(s.boxed_local().into_future()),
        15 => un(s.for_each_concurrent(2, move |_| fut(&w, ()))),
        16 => un(s.try_for_each_concurrent(2, move |r: R| { let x = r.and_then(|t| if flipped(id, Ok(t.v)).is_ok() { Ok(()) } else { Err(t) }); fut(&w, x) })),
        17 => { drop(s); un(fut(&w, c.tok(1)).fuse()) }
        18 => { drop(s); un(fut(&world, c.tok(1)).then(move |t| fut(&w, t))) }
        19 => { drop(s); let inner = fut(&w, ()); un(fut(&world, inner).flatten()) }
        20 => { drop(s); un(fut(&w, c.tok(1)).map(|t| t)) }
        21 => { drop(s); let o: Result<_, Tok> = if c.bool() { Ok(fut(&w, r(&c, 1))) } else { Err(c.tok(3)) }; un(fut(&world, o).try_flatten()) }
        22 => { drop(s); let o = r(&c, 2); un(fut(&world, o).and_then(move |t| fut(&w, Ok(t)))) }
        23 => { drop(s); let o = r(&c, 2); un(fut(&world, o).or_else(move |t| fut(&w, Err::<Tok, Tok>(t)))) }
        24 => { drop(s); un(future::select(Box::pin(fut(&w, c.tok(1))), Box::pin(fut(&w, c.tok(2))))) }
        25 => { drop(s); un(future::join(fut(&w, c.tok(1)), fut(&w, c.tok(2)))) }
        26 => un(future::join(fut(&w, c.tok(1)).fuse(), s.boxed_local().into_future())),
        27 => { drop(s); un(fut(&w, c.tok(1)).left_future::<LFut<Tok>>()) }
        28 => { drop(s); un(future::OptionFuture::from(Some(fut(&w, c.tok(1))))) }
        29 => { drop(s); un(future::lazy(move |_| c.tok(1))) }
        30 => { drop(s); un(fut(&w, 3u64).shared()) }
        31 => { drop(s); un(future::maybe_done(fut(&w, 3u64))) }
        32 => { drop(s); let o: Result<u64, u64> = if c.bool() { Ok(1) } else { Err(2) }; un(future::try_maybe_done(fut(&w, o))) }
        33 => { drop(s); let o = r(&c, 2); un(fut(&w, o).into_future()) }
        34 => un(owning(Box::pin(s.peekable()), |p| Box::pin(Un(p.as_mut().peek())))),
        35 => un(owning(Box::pin(s.peekable()), |p| Box::pin(Un(p.as_mut().next_if(|_| true))))),
        36 => un(s.map(|_| ()).forward(futures::sink::drain().buffer(1).with(move |()| fut(&w, Ok::<(), Infallible>(()))))),
        37 => un(s.map_ok(|_| ()).map_err(|_| ()).try_forward(futures::sink::drain().sink_map_err(|_| ()))),
        38 => { drop(s); un(owning(futures::lock::Mutex::new(1u8), |m| Box::pin(Un(m.lock())))) }
        39 => { drop(s); un(Arc::new(futures::lock::Mutex::new(1u8)).lock_owned()) }
        40 => { drop(s); let (tx, rx) = futures::channel::oneshot::channel(); let f = fut(&w, ()).map(move |()| tx.send(1u8)); un(future::join(f.fuse(), rx)) }
        _ => { let v = if items.is_empty() { vec![Ok(1)] } else { items.clone() }; drop(s); let s = g.lstream(&v); un(owning(Box::pin(s), |p| Box::pin(Un(p.select_next_some())))) }
    };
    use futures_test::future::FutureTestExt;
    f = match case.below(12) {
        3 => Box::pin(f.interleave_pending()),
        4 => Box::pin(f.assert_unmoved()),
        5 => Box::pin(f.pending_once()),
        0 => Box::pin(Box::new(f)),
        1 => Box::pin(ByMut(std::cell::RefCell::new(f))),
        2 => Box::pin(AssertUnwindSafe(f)),
        _ => f,
    };
    case.log(|| what.to_string());
    loop {
        // Not flagged before it completes, or a select! loop would skip it.
        case.check(!f.is_terminated(), || format!("{what}: terminated before it completed"));
        let w = world.waiting();
        if p.woken() && (w.is_empty() || !case.chance(1, 3)) {
            if p.poll(|cx| f.as_mut().poll(cx)).is_ready() {
                break;
            }
        } else if !w.is_empty() {
            world.fire(w[case.below(w.len())]);
        } else {
            case.fail(format!("{what}: stalled (lost wakeup)"));
        }
    }
    // These are views of a stream that can go on.
    if what != "select_next_some" && !(matches!(what, "try_collect" | "try_forward") && items.iter().any(|m| m.is_err())) {
        case.check(f.is_terminated(), || format!("{what}: not terminated after it completed"));
    }
    case.label(what);
    if items.len() >= 2 {
        case.nontrivial();
    }
    drop(f);
    world.clear();
    drop(g);
    case.no_leaks(what);
}

/// Hints at the edge of the number range neither wrap nor panic.
struct Huge((usize, Option<usize>));
impl Stream for Huge {
    type Item = u64;
    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<u64>> {
        Poll::Ready(Some(1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0
    }
}
impl FusedStream for Huge {
    fn is_terminated(&self) -> bool {
        false
    }
}

/// An iterator with truthful but vague bounds.
#[derive(Clone)]
struct Vague(std::vec::IntoIter<u64>, usize, Option<usize>);
impl Iterator for Vague {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        (n.saturating_sub(self.1), self.2.map(|x| n + x))
    }
}

/// Streams without end say so; one that never yields counts as terminated.
fn endless(case: &Case) {
    let mut p = Poller::new(case);
    let n = std::rc::Rc::new(std::cell::Cell::new(0u64));
    let n2 = n.clone();
    let kind = case.below(4);
    case.eq(NoBounds.size_hint(), (0, None), "bounds not given");
    let mut s: Pin<Box<dyn FusedStream<Item = u64>>> = match kind {
        0 => Box::pin(stream::pending()),
        1 => Box::pin(stream::pending().clone()),
        2 => Box::pin(stream::repeat(5)),
        _ => Box::pin(stream::repeat_with(move || {
            n2.set(n2.get() + 1);
            n2.get()
        })),
    };
    for i in 0..case.below(5) {
        let (lo, hi) = s.size_hint();
        if kind < 2 {
            case.check(lo == 0 && s.is_terminated(), || format!("pending: hint {lo} or flag"));
        } else {
            case.check(hi.is_none() && !s.is_terminated(), || format!("endless: hint {hi:?} or flag"));
        }
        let want = match kind {
            0 | 1 => Poll::Pending,
            2 => Poll::Ready(Some(5)),
            _ => Poll::Ready(Some(i as u64 + 1)),
        };
        case.eq(p.poll(|cx| s.as_mut().poll_next(cx)), want, "item");
        case.check(kind < 3 || n.get() == i as u64 + 1, || "calls of the closure".into());
    }
    case.nontrivial();
}

/// Futures that are ready at once, and a blocking iterator.
fn small_hints(case: &Case) {
    let mut p = Poller::new(case);
    match case.below(5) {
        0 => {
            let mut f = if case.bool() { future::ready(case.tok(1)) } else { future::ready(case.tok(1)).clone() };
            case.check(!f.is_terminated(), || "ready: terminated before it completed".into());
            let _ = p.poll(|cx| f.poll_unpin(cx));
            case.check(f.is_terminated(), || "ready: not terminated after it completed".into());
        }
        1 => case.check(future::pending::<u8>().is_terminated(), || "pending: nothing ever comes".into()),
        2 => {
            let mut f = future::always_ready(|| 1u8);
            for _ in 0..case.below(4) {
                case.check(!f.is_terminated(), || "always_ready: terminated".into());
                case.eq(p.poll(|cx| f.poll_unpin(cx)), Poll::Ready(1), "always_ready");
            }
        }
        3 => {
            let n = case.below(4);
            let mut left = n;
            let mut f = future::poll_immediate(future::poll_fn(move |cx| {
                if left == 0 {
                    return Poll::Ready(3u8);
                }
                left -= 1;
                cx.waker().wake_by_ref();
                Poll::Pending
            }));
            for i in 0..=n {
                case.check(!FusedFuture::is_terminated(&f), || "poll_immediate: terminated before it completed".into());
                case.eq(p.poll(|cx| Future::poll(Pin::new(&mut f), cx)), Poll::Ready(if i < n { None } else { Some(3) }), "poll_immediate");
            }
            case.check(FusedFuture::is_terminated(&f), || "poll_immediate: not terminated after it completed".into());
        }
        _ => {
            let v: Vec<u64> = (0..case.below(5) as u64).collect();
            let n = v.len();
            let slack = (case.below(4), *case.pick(&[None, Some(0), Some(1), Some(3)]));
            let mut it = futures::executor::block_on_stream(stream::iter(Vague(v.into_iter(), slack.0, slack.1)));
            for i in 0..=n {
                let (lo, hi) = it.size_hint();
                case.check(lo <= n - i && hi.map_or(true, |h| n - i <= h), || format!("blocking iterator: ({lo}, {hi:?}), {} left", n - i));
                case.eq(it.next(), (i < n).then_some(i as u64), "item");
            }
        }
    }
    case.nontrivial();
}

fn cycle_hints(case: &Case) {
    let mut p = Poller::new(case);
    let v: Vec<u64> = (0..case.below(4) as u64).collect();
    let slack = (case.below(4), *case.pick(&[None, Some(0), Some(1), Some(3)]));
    let mut s = stream::iter(Vague(v.clone().into_iter(), slack.0, slack.1)).cycle();
    for i in 0..case.below(12) {
        let (lo, hi) = s.size_hint();
        if v.is_empty() {
            case.check(lo == 0, || format!("cycle of nothing: hint ({lo}, {hi:?})"));
        } else {
            case.check(hi.map_or(true, |h| h == usize::MAX) && !s.is_terminated(), || format!("cycle: hint ({lo}, {hi:?})"));
        }
        let r = p.poll(|cx| s.poll_next_unpin(cx));
        if v.is_empty() {
            case.eq(r, Poll::Ready(None), "cycle of nothing");
        } else {
            case.eq(r, Poll::Ready(Some(v[i % v.len()])), "cycle");
        }
    }
    case.nontrivial();
}

fn huge_hints(case: &Case) {
    if case.chance(1, 8) {
        return cycle_hints(case);
    }
    if case.chance(1, 8) {
        return endless(case);
    }
    if case.chance(1, 8) {
        return small_hints(case);
    }
    let mut p = Poller::new(case);
    const MAX: usize = usize::MAX;
    let mk = || {
        // an endless stream: the lower bound may be anything, there is no upper one
        let lo = *case.pick(&[0usize, 3, MAX - 1, MAX, MAX / 2 + 1]);
        Huge((lo, None))
    };
    let k = case.below(17);
    let what = [
        "chain", "zip", "select", "select_with_strategy", "stream_select!", "peekable", "then", "buffered", "buffer_unordered",
        "chunks", "skip", "take", "cycle", "repeat", "filter", "take_until", "scan",
    ][k];
    type S = Pin<Box<dyn Stream<Item = u64>>>;
    let (a, b) = (mk(), mk());
    let polls = case.below(3);
    // Pending futures, so that items are held inside.
    let mut s: S = match k {
        0 => Box::pin(a.chain(b)),
        1 => Box::pin(a.zip(b).map(|x| x.0)),
        2 => Box::pin(stream::select(a, b)),
        3 => Box::pin(stream::select_with_strategy(a, b, |_: &mut ()| stream::PollNext::Left)),
        4 => Box::pin(futures::stream_select!(a, b)),
        5 => {
            let mut s = Box::pin(a.peekable());
            let _ = p.poll(|cx| s.as_mut().poll_peek(cx).map(|_| ()));
            s
        }
        6 => Box::pin(a.then(|_| future::pending())),
        7 => Box::pin(a.map(|_| future::pending()).buffered(2)),
        8 => Box::pin(a.map(|_| future::pending()).buffer_unordered(2)),
        9 => Box::pin(a.chunks(case.range(1, 3)).map(|v| v[0])),
        10 => Box::pin(a.skip(*case.pick(&[1usize, MAX]))),
        11 => Box::pin(a.take(*case.pick(&[1usize, MAX]))),
        12 => Box::pin(stream::iter(vec![1u64, 2]).cycle()),
        13 => Box::pin(stream::repeat(1u64)),
        14 => Box::pin(a.filter(|_| future::pending())),
        15 => Box::pin(a.take_until(future::pending::<()>())),
        _ => Box::pin(a.scan((), |_, x| future::ready(Some(((), x))))),
    };
    for _ in 0..=polls {
        let r = catch_unwind(AssertUnwindSafe(|| s.size_hint()));
        match r {
            Err(e) => {
                drop(e);
                case.fail(format!("{what}: size_hint panics on large bounds"))
            }
            Ok((lo, hi)) => {
                if k == 11 {
                    case.check(lo <= hi.unwrap_or(MAX), || format!("{what}: hint ({lo}, {hi:?})"));
                } else {
                    case.check(hi.is_none() || hi == Some(MAX), || format!("{what}: upper bound {hi:?} of an endless stream"));
                }
            }
        }
        if k != 10 {
            let _ = p.poll(|cx| s.as_mut().poll_next(cx));
        }
    }
    case.nontrivial();
    let _ = resume_unwind as fn(_) -> _;
}
