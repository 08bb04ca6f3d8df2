// Included into unord.rs.

/// Drives like `drive`, and calls `quiet` whenever the task is pending and has
/// not been woken, and `always` after every poll.
fn drive_chk<T>(
    p: &mut Poller,
    world: &World,
    what: &str,
    mut poll: impl FnMut(&mut Context<'_>) -> Poll<T>,
    mut always: impl FnMut(),
    mut quiet: impl FnMut(),
) -> T {
    let case = p.case.clone();
    loop {
        let w = world.waiting();
        let woken = p.woken();
        let spurious = !woken && !w.is_empty() && case.chance(1, 8);
        if spurious || (woken && (w.is_empty() || !case.chance(1, 3))) {
            let r = p.poll(&mut poll);
            always();
            match r {
                Poll::Ready(t) => return t,
                Poll::Pending => {
                    if !p.woken() {
                        quiet()
                    }
                }
            }
        } else if !w.is_empty() {
            world.fire(w[case.below(w.len())]);
        } else {
            case.fail(format!("{what}: stalled, pending, every event has fired and nothing woke the task (lost wakeup)"))
        }
    }
}

// ------------------------------------------------------------------ C07 queue

fn fo_seq(case: &Case) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    // (id, state, whether it still has to be polled)
    let mut q: VecDeque<(u64, Arc<LeafSt>)> = VecDeque::new();
    let mut next = 0u64;
    let mk = |next: &mut u64| -> (u64, LFut<Tok>) {
        let id = *next;
        *next += 1;
        (id, LFut::gen(&world, id.to_string(), case.tok(id)))
    };
    let n0 = case.len(5);
    let it = (0..n0).map(|_| {
        let (id, f) = mk(&mut next);
        q.push_back((id, f.st.clone()));
        f
    });
    let mut set: FuturesOrdered<LFut<Tok>> = if case.bool() {
        it.collect()
    } else {
        let mut s = FuturesOrdered::default();
        s.extend(it);
        s
    };
    let mut pending = false;
    let mut terminated = Some(false);
    let (mut out, mut fronts, mut waited) = (0, 0, false);
    for _ in 0..case.big(4, 50, 400) {
        match case.below(12) {
            0..=4 => {
                if !pending || p.woken() || case.chance(1, 6) {
                    let was = p.woken();
                    let r = p.poll(|cx| set.poll_next_unpin(cx));
                    case.log(|| format!("poll_next -> {r:?}"));
                    match r {
                        Poll::Ready(Some(t)) => {
                            if pending && !was {
                                case.fail(format!("{t:?} became available but the task was not woken"));
                            }
                            match q.pop_front() {
                                Some((id, _)) => case.eq(t.v, id, "outputs come in queue order"),
                                None => case.fail(format!("output {t:?} of an empty queue")),
                            }
                            out += 1;
                            pending = false;
                            terminated = Some(false);
                        }
                        Poll::Ready(None) => {
                            case.check(q.is_empty(), || format!("end with {} futures queued", q.len()));
                            terminated = Some(true);
                            pending = false;
                        }
                        Poll::Pending => {
                            case.check(!q.is_empty(), || "pending although empty".into());
                            pending = true;
                            waited = true;
                            terminated = Some(false);
                            if !p.woken() {
                                for (i, (id, st)) in q.iter().enumerate() {
                                    case.check(st.blocked() || (i > 0 && st.done()), || {
                                        format!("pending and not woken, but future {id} (position {i}) can make progress")
                                    });
                                }
                            }
                        }
                    }
                }
            }
            5 | 6 => {
                match case.below(4) {
                    0 => {
                        let k = case.below(4);
                        let v: Vec<_> = (0..k)
                            .map(|_| {
                                let (id, f) = mk(&mut next);
                                case.log(|| format!("extend by {id}"));
                                q.push_back((id, f.st.clone()));
                                f
                            })
                            .collect();
                        set.extend(v);
                        if k == 0 {
                            continue;
                        }
                    }
                    #[allow(deprecated)]
                    1 => {
                        let (id, f) = mk(&mut next);
                        case.log(|| format!("push {id}"));
                        q.push_back((id, f.st.clone()));
                        set.push(f);
                    }
                    _ => {
                        let (id, f) = mk(&mut next);
                        case.log(|| format!("push_back {id}"));
                        q.push_back((id, f.st.clone()));
                        set.push_back(f);
                    }
                }
                pending = false;
                terminated = Some(false);
            }
            7 => {
                let (id, f) = mk(&mut next);
                case.log(|| format!("push_front {id}"));
                q.push_front((id, f.st.clone()));
                set.push_front(f);
                fronts += 1;
                pending = false;
                terminated = Some(false);
            }
            8 | 9 => {
                world.fire_some();
            }
            10 if case.chance(1, 8) => {
                case.log(|| "clear".into());
                set.clear();
                for (id, st) in &q {
                    case.check(st.dropped(), || format!("clear left {id}"));
                }
                q.clear();
                pending = false;
                terminated = None;
            }
            _ => {
                case.eq(set.len(), q.len(), "len");
                case.eq(set.is_empty(), q.is_empty(), "is_empty");
                case.eq(set.size_hint(), (q.len(), Some(q.len())), "size_hint");
            }
        }
        if let Some(t) = terminated {
            case.eq(set.is_terminated(), t, "is_terminated");
        }
        for (id, st) in &q {
            let (polls, allowed) = (st.polls(), st.allowed.load(SeqCst));
            case.check(polls <= allowed, || format!("future {id} polled {polls} times with at most {} wakeups", allowed - 1));
        }
        if pending && !p.woken() {
            if let Some((id, st)) = q.front() {
                case.check(st.blocked(), || format!("the first future {id} was woken but the task was not"));
            }
        }
    }
    if case.chance(3, 4) {
        p.set_woken();
        while let Some((id, _)) = q.pop_front() {
            let r = drive(&mut p, &world, "FuturesOrdered", |cx| set.poll_next_unpin(cx));
            case.eq(r.map(|t| t.v), Some(id), "outputs come in queue order");
            out += 1;
        }
        case.eq(drive(&mut p, &world, "FuturesOrdered end", |cx| set.poll_next_unpin(cx)).map(|t| t.v), None, "end");
    }
    drop(set);
    case.no_leaks("FuturesOrdered");
    case.label_if(fronts > 0, "push_front");
    if out >= 2 && waited {
        case.nontrivial();
    }
}

/// `buffered`/`try_buffered` keep the order whatever order the futures finish in.
fn buf_order(case: &Case) {
    let world = World::new(case);
    let n = case.big(0, 8, 60);
    let limit = *case.pick(&[None, Some(0usize), Some(1), Some(2), Some(3), Some(5)]);
    let mut p = Poller::new(case);
    let try_ = case.bool();
    case.log(|| format!("{} limit {limit:?}, {n} futures", if try_ { "try_buffered" } else { "buffered" }));
    let mut want: Vec<Result<u64, u64>> = vec![];
    let mut got: Vec<Result<u64, u64>> = vec![];
    if try_ {
        let mut src_errs = vec![];
        let items: Vec<Result<LFut<Result<Tok, u64>>, u64>> = (0..n as u64)
            .map(|i| {
                if case.chance(1, 8) {
                    src_errs.push(1000 + i);
                    Err(1000 + i)
                } else if case.chance(1, 5) {
                    want.push(Err(i));
                    Ok(LFut::gen(&world, i.to_string(), Err(i)))
                } else {
                    want.push(Ok(i));
                    Ok(LFut::gen(&world, i.to_string(), Ok(case.tok(i))))
                }
            })
            .collect();
        let mut s = Box::pin(LStream::gen(&world, "src", items).try_buffered(limit));
        while let Some(r) = drive(&mut p, &world, "try_buffered", |cx| s.as_mut().poll_next(cx)) {
            got.push(r.map(|t| t.v));
        }
        // Errors of the source itself may overtake, but keep their own order.
        let se: Vec<u64> = got.iter().filter_map(|r| r.as_ref().err().copied().filter(|e| *e >= 1000)).collect();
        case.eq(se, src_errs, "errors of the source, in order");
        got.retain(|r| !matches!(r, Err(e) if *e >= 1000));
    } else {
        for i in 0..n as u64 {
            want.push(Ok(i));
        }
        let items: Vec<LFut<Tok>> = (0..n as u64).map(|i| LFut::gen(&world, i.to_string(), case.tok(i))).collect();
        let mut s = Box::pin(LStream::gen(&world, "src", items).buffered(limit));
        while let Some(t) = drive(&mut p, &world, "buffered", |cx| s.as_mut().poll_next(cx)) {
            got.push(Ok(t.v));
        }
    }
    case.eq(got, want, "outputs in source order");
    case.no_leaks("buffered");
    if n >= 3 && p.polls > n as u64 {
        case.nontrivial();
    }
}

/// FuturesOrdered with wakers on other threads.
fn fo_threads(case: &Case) {
    let n = case.range(1, 4);
    let k = case.range(1, 3);
    let (futs, lists) = t_futs(case, n, k);
    let seen = Arc::new(Mutex::new(vec![]));
    let out = seen.clone();
    let fronts: Vec<bool> = (0..n).map(|_| case.chance(1, 4)).collect();
    let mut want = VecDeque::new();
    for (i, f) in fronts.iter().enumerate() {
        if *f {
            want.push_front(i as u64)
        } else {
            want.push_back(i as u64)
        }
    }
    let mut bodies: Vec<(String, Body)> = vec![(
        "owner".into(),
        body(move |th| {
            let mut set = FuturesOrdered::new();
            for (f, front) in futs.into_iter().zip(fronts) {
                if front {
                    set.push_front(f)
                } else {
                    set.push_back(f)
                }
            }
            let mut got = vec![];
            while let Some(t) = th.block_on_fn(|cx| set.poll_next_unpin(cx)) {
                got.push(t.v);
            }
            *out.lock().unwrap() = got;
        }),
    )];
    for (i, l) in lists.into_iter().enumerate() {
        bodies.push(firing(i, l));
    }
    par::run(case, bodies);
    let g = seen.lock().unwrap().clone();
    case.eq(g, want.into_iter().collect::<Vec<_>>(), "outputs in queue order");
    case.no_leaks("FuturesOrdered, threads");
    case.nontrivial();
}

fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "seq: histories of push_back/push_front/poll/wake/clear over gated futures, model = a deque; buffered: buffered/try_buffered over generated sources, limits and completion orders; threads: wakers on 1-3 controlled threads. Non-trivial: >=2 outputs and at least one wait / >=3 futures and extra polls / every thread case.",
        subs: vec![
            sub("seq", fo_seq, 1_000_000, 10_000_000).miri(48, 1500),
            sub("buffered", buf_order, 1_000_000, 10_000_000).miri(32, 1000),
            sub("threads", fo_threads, 50_000, 1_200_000).miri(64, 1500),
        ],
    }
}

// ------------------------------------------------------------------ C08 limits

#[derive(Default)]
struct Flight {
    started: u64,
    sts: Vec<Arc<LeafSt>>,
}

fn lim_txt(l: Option<usize>) -> usize {
    match l {
        None | Some(0) => usize::MAX,
        Some(n) => n,
    }
}

/// Concurrency-limited adaptors: never above the limit, never idle below it,
/// every element handled exactly once.
fn limits(case: &Case) {
    let world = World::new(case);
    let n = case.big(0, 8, 60) as u64;
    let mut limit = *case.pick(&[None, Some(0usize), Some(1), Some(2), Some(3), Some(4)]);
    if n > 8 && case.bool() {
        limit = Some(case.range(5, 50));
    }
    let max = lim_txt(limit) as u64;
    let kind = case.below(8);
    let name = [
        "buffered", "buffer_unordered", "try_buffered", "try_buffer_unordered", "for_each_concurrent",
        "try_for_each_concurrent", "flatten_unordered", "try_flatten_unordered",
    ][kind];
    let mut p = Poller::new(case);
    case.log(|| format!("{name} limit {limit:?} over {n} elements"));
    let mut limited = false;
    match kind {
        // Streams of futures: "buffered" is everything taken and not yet yielded.
        0 | 1 => {
            let mut sts = vec![];
            let items: Vec<LFut<Tok>> = (0..n)
                .map(|i| {
                    let f = LFut::gen(&world, i.to_string(), case.tok(i));
                    sts.push(f.st.clone());
                    f
                })
                .collect();
            let src = LStream::gen(&world, "src", items);
            let sst = src.st.clone();
            let mut s: Pin<Box<dyn Stream<Item = Tok>>> =
                if kind == 0 { Box::pin(src.buffered(limit)) } else { Box::pin(src.buffer_unordered(limit)) };
            let mut got = vec![];
            let mut peak = 0;
            loop {
                let y = got.len() as u64;
                let r = drive_chk(
                    &mut p,
                    &world,
                    name,
                    |cx| s.as_mut().poll_next(cx),
                    || {
                        let fl = sst.items() - y;
                        peak = peak.max(fl);
                        case.check(fl <= max, || format!("{fl} futures buffered, limit {max}"));
                    },
                    || {
                        let taken = sst.items();
                        if taken - y < max {
                            case.check(sst.done() || sst.blocked(), || {
                                format!("idle with {} of {max} in flight although the source can give more", taken - y)
                            });
                        }
                        for st in &sts[..taken as usize] {
                            case.check(st.done() || st.blocked(), || "idle although a future taken can make progress".into());
                        }
                    },
                );
                match r {
                    Some(t) => got.push(t.v),
                    None => break,
                }
            }
            if kind == 1 {
                got.sort();
            }
            case.eq(got, (0..n).collect::<Vec<_>>(), "every future's output exactly once");
            limited = peak == max && n > max;
        }
        2 | 3 => {
            let mut oks = vec![];
            let mut errs = vec![];
            let mut sts = vec![];
            // whether element i is a future
            let mut futs = vec![];
            let items: Vec<Result<LFut<Result<Tok, u64>>, u64>> = (0..n)
                .map(|i| {
                    if case.chance(1, 8) {
                        errs.push(i);
                        futs.push(false);
                        Err(i)
                    } else {
                        let f = if case.chance(1, 5) {
                            errs.push(i);
                            LFut::gen(&world, i.to_string(), Err(i))
                        } else {
                            oks.push(i);
                            LFut::gen(&world, i.to_string(), Ok(case.tok(i)))
                        };
                        sts.push(f.st.clone());
                        futs.push(true);
                        Ok(f)
                    }
                })
                .collect();
            let src = LStream::gen(&world, "src", items);
            let sst = src.st.clone();
            let mut s: Pin<Box<dyn Stream<Item = Result<Tok, u64>>>> =
                if kind == 2 { Box::pin(src.try_buffered(limit)) } else { Box::pin(src.try_buffer_unordered(limit)) };
            let (mut gok, mut gerr) = (vec![], vec![]);
            let mut yielded_futs = 0u64;
            loop {
                let y = yielded_futs;
                let r = drive_chk(
                    &mut p,
                    &world,
                    name,
                    |cx| s.as_mut().poll_next(cx),
                    || {
                        let taken = futs[..sst.items() as usize].iter().filter(|x| **x).count() as u64;
                        case.check(taken - y <= max, || format!("{} futures buffered, limit {max}", taken - y));
                    },
                    || {
                        let taken = futs[..sst.items() as usize].iter().filter(|x| **x).count() as u64;
                        if taken - y < max {
                            case.check(sst.done() || sst.blocked(), || "idle below the limit".into());
                        }
                        for st in &sts[..taken as usize] {
                            case.check(st.done() || st.blocked(), || "idle although a future taken can make progress".into());
                        }
                    },
                );
                match r {
                    Some(Ok(t)) => {
                        yielded_futs += 1;
                        gok.push(t.v)
                    }
                    Some(Err(e)) => {
                        if futs[e as usize] {
                            yielded_futs += 1;
                        }
                        gerr.push(e)
                    }
                    None => break,
                }
            }
            gok.sort();
            gerr.sort();
            case.eq(gok, oks, "every success exactly once");
            case.eq(gerr, errs, "every error exactly once");
            limited = n > max;
        }
        4 | 5 => {
            let fl = Arc::new(Mutex::new(Flight::default()));
            let fails: Vec<bool> = (0..n).map(|_| kind == 5 && case.chance(1, 8)).collect();
            let src = LStream::gen(&world, "src", (0..n).map(|i| case.tok(i)));
            let sst = src.st.clone();
            let f2 = fl.clone();
            let (w2, c2, fails2) = (world.clone(), case.clone(), fails.clone());
            let mk = move |t: Tok| {
                let st_out = if fails2[t.v as usize] { Err(t.v) } else { Ok(()) };
                let f = LFut::gen(&w2, format!("f{}", t.v), st_out);
                let mut g = f2.lock().unwrap();
                g.started += 1;
                g.sts.push(f.st.clone());
                if t.v + 1 != g.started {
                    c2.note_fail("elements out of order or twice");
                }
                f
            };
            let mut run: Pin<Box<dyn Future<Output = Result<(), u64>>>> = if kind == 4 {
                let mut mk = mk;
                Box::pin(src.for_each_concurrent(limit, move |t| mk(t).map(|_| ())).map(Ok))
            } else {
                Box::pin(src.try_for_each_concurrent(limit, mk))
            };
            let in_flight = |g: &Flight| g.sts.iter().filter(|s| !s.done()).count() as u64;
            let mut peak = 0;
            let r = drive_chk(
                &mut p,
                &world,
                name,
                |cx| run.as_mut().poll(cx),
                || {
                    let g = fl.lock().unwrap();
                    let k = g.sts.iter().filter(|s| !s.done() && !s.dropped()).count() as u64;
                    peak = peak.max(k);
                    case.check(k <= max, || format!("{k} futures running, limit {max}"));
                },
                || {
                    let g = fl.lock().unwrap();
                    if in_flight(&g) < max {
                        case.check(sst.done() || sst.blocked(), || {
                            format!("idle with {} of {max} running although the source can give more", in_flight(&g))
                        });
                    }
                    for st in &g.sts {
                        case.check(st.done() || st.blocked(), || "idle although a future can make progress".into());
                    }
                },
            );
            let g = fl.lock().unwrap();
            match r {
                Ok(()) => {
                    case.eq(g.started, n, "every element handled");
                    case.check(g.sts.iter().all(|s| s.done()), || "completed with unfinished futures".into());
                    case.check(!fails.iter().any(|f| *f), || "an error was swallowed".into());
                }
                Err(e) => {
                    case.label("ended_by_error");
                    case.check(fails[e as usize] && g.sts[e as usize].done(), || format!("made-up error {e}"));
                    // The first error ends it: at most one failing future completed.
                    let bad = g.sts.iter().enumerate().filter(|(i, s)| fails[*i] && s.done()).count();
                    case.eq(bad, 1, "errors produced before it stopped");
                    case.check(g.sts.iter().all(|s| s.dropped()), || "futures kept alive after the error was returned".into());
                    case.check(sst.dropped(), || "the source is kept alive after the error was returned".into());
                }
            }
            limited = peak == max && n > max;
            drop(g);
            drop(run);
        }
        _ => {
            let mut sts = vec![];
            let mut want: Vec<u64> = vec![];
            let mut is_stream = vec![];
            let mut k = 0u64;
            let items: Vec<Result<Pin<Box<LStream<Result<Tok, u64>>>>, u64>> = (0..n)
                .map(|i| {
                    if kind == 7 && case.chance(1, 8) {
                        is_stream.push(false);
                        want.push(10_000 + i);
                        return Err(10_000 + i);
                    }
                    is_stream.push(true);
                    let m = case.below(4);
                    let v: Vec<Result<Tok, u64>> = (0..m)
                        .map(|_| {
                            k += 1;
                            if kind == 7 && case.chance(1, 6) {
                                want.push(20_000 + k);
                                Err(20_000 + k)
                            } else {
                                want.push(k);
                                Ok(case.tok(k))
                            }
                        })
                        .collect();
                    let s = LStream::gen(&world, format!("in{i}"), v);
                    sts.push(s.st.clone());
                    Ok(Box::pin(s))
                })
                .collect();
            let src = LStream::gen(&world, "src", items);
            let sst = src.st.clone();
            let mut s: Pin<Box<dyn Stream<Item = Result<Tok, u64>>>> = if kind == 6 {
                Box::pin(src.map(|r| r.ok().unwrap()).flatten_unordered(limit))
            } else {
                Box::pin(src.try_flatten_unordered(limit))
            };
            let mut got = vec![];
            let taken = |sst: &LeafSt| is_stream[..sst.items() as usize].iter().filter(|x| **x).count();
            loop {
                let r = drive_chk(
                    &mut p,
                    &world,
                    name,
                    |cx| s.as_mut().poll_next(cx),
                    || {
                        let run = sts[..taken(&sst)].iter().filter(|s| !s.done()).count() as u64;
                        case.check(run <= max, || format!("{run} streams in flight, limit {max}"));
                    },
                    || {
                        let t = taken(&sst);
                        let run = sts[..t].iter().filter(|s| !s.done()).count() as u64;
                        if run < max {
                            case.check(sst.done() || sst.blocked(), || format!("idle with {run} of {max} streams although the source can give more"));
                        }
                        for st in &sts[..t] {
                            case.check(st.done() || st.blocked(), || "idle although an inner stream can make progress".into());
                        }
                    },
                );
                match r {
                    Some(Ok(t)) => got.push(t.v),
                    Some(Err(e)) => got.push(e),
                    None => break,
                }
            }
            got.sort();
            want.sort();
            case.eq(got, want, "every item and error exactly once");
            limited = n > max;
        }
    }
    world.clear();
    case.no_leaks(name);
    case.label(name);
    if limited || (n >= 3 && p.polls > 3 && max >= n) {
        case.nontrivial();
    }
}

fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "one of the eight limited adaptors over a generated source (0-8 elements, gated, errors), limit none/0/1-4, generated completion order; after each poll the number in flight is compared with the limit, and whenever the task is idle everything in flight and (below the limit) the source must really be blocked. Non-trivial: the limit was reached with elements left, or >=3 elements and >3 polls.",
        subs: vec![sub("limits", limits, 1_600_000, 16_000_000).miri(32, 1000)],
    }
}

// ------------------------------------------------------------------ C09 merging

/// Items are numbered input*100 + position.
fn gen_inputs(case: &Case, world: &World, k: usize, gated: bool) -> (Vec<Pin<Box<LStream<Tok>>>>, Vec<Arc<LeafSt>>, Vec<usize>) {
    let mut v = vec![];
    let mut sts = vec![];
    let mut lens = vec![];
    for i in 0..k {
        let n = case.len(6);
        lens.push(n);
        let items = (0..n).map(|j| case.tok((i * 100 + j) as u64));
        let s = if gated {
            LStream::gen(world, format!("in{i}"), items)
        } else {
            LStream::new(world, format!("in{i}"), items.map(vh::leaf::SStep::Item).collect())
        };
        sts.push(s.st.clone());
        v.push(Box::pin(s));
    }
    (v, sts, lens)
}

fn check_merge(case: &Case, got: &[u64], lens: &[usize]) {
    let mut at = vec![0usize; lens.len()];
    for v in got {
        let (i, j) = ((*v / 100) as usize, (*v % 100) as usize);
        case.eq(j, at[i], &format!("items of input {i} exactly once and in order"));
        at[i] += 1;
    }
    case.eq(at, lens.to_vec(), "all items of all inputs");
}

/// A stream one of whose polls panics; it is not polled after that.
struct PanicAt {
    s: Pin<Box<LStream<Tok>>>,
    left: usize,
    given: Arc<Mutex<(usize, bool)>>,
    case: Case,
}

impl Stream for PanicAt {
    type Item = Tok;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Tok>> {
        self.case.check(!self.given.lock().unwrap().1, || "polled after it panicked".into());
        if self.left == 0 {
            self.given.lock().unwrap().1 = true;
            std::panic::panic_any(Injected(1))
        }
        self.left -= 1;
        let r = self.s.poll_next_unpin(cx);
        if let Poll::Ready(Some(_)) = &r {
            self.given.lock().unwrap().0 += 1;
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.s.size_hint()
    }
}

impl FusedStream for PanicAt {
    fn is_terminated(&self) -> bool {
        self.s.is_terminated()
    }
}

fn merge(case: &Case) {
    let world = World::new(case);
    let kind = case.below(7);
    let name = [
        "select", "select_with_strategy", "select_all", "flatten_unordered", "stream_select!(2)", "stream_select!(3)",
        "try_flatten_unordered",
    ][kind];
    let k = match kind {
        0 | 1 | 4 => 2,
        5 => 3,
        _ => case.big(0, 5, 36),
    };
    let gated = !case.chance(1, 5);
    let (ins, sts, mut lens) = gen_inputs(case, &world, k, gated);
    let panics = matches!(kind, 2 | 3 | 6) && k > 0 && case.chance(1, 8);
    let who = if panics { case.below(k) } else { 0 };
    let given: Arc<Mutex<(usize, bool)>> = Default::default();
    let mut ins: Vec<PanicAt> = ins
        .into_iter()
        .enumerate()
        .map(|(i, s)| PanicAt {
            s,
            left: if panics && i == who { case.below(4) } else { usize::MAX },
            given: if i == who { given.clone() } else { Default::default() },
            case: case.clone(),
        })
        .collect();
    case.log(|| format!("{name} over inputs of length {lens:?}"));
    let mut p = Poller::new(case);
    // A strategy that always prefers one side, alternates, or follows a list.
    let strat = case.below(4);
    let plan: Vec<bool> = (0..32).map(|_| case.bool()).collect();
    let asked = Arc::new(Mutex::new(Vec::<bool>::new()));
    let fused = case.chance(1, 2);
    let mut term: Option<Box<dyn Fn(&Pin<Box<dyn FStream>>) -> bool>> = None;
    trait FStream: Stream<Item = Tok> {
        fn term(&self) -> Option<bool>;
    }
    struct NoTerm<S>(S);
    impl<S: Stream<Item = Tok> + Unpin> Stream for NoTerm<S> {
        type Item = Tok;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Tok>> {
            self.0.poll_next_unpin(cx)
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
    }
    impl<S: Stream<Item = Tok> + Unpin> FStream for NoTerm<S> {
        fn term(&self) -> Option<bool> {
            None
        }
    }
    struct Term<S>(S);
    impl<S: FusedStream<Item = Tok> + Unpin> Stream for Term<S> {
        type Item = Tok;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Tok>> {
            self.0.poll_next_unpin(cx)
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
    }
    impl<S: FusedStream<Item = Tok> + Unpin> FStream for Term<S> {
        fn term(&self) -> Option<bool> {
            Some(self.0.is_terminated())
        }
    }
    let a2 = asked.clone();
    let mut s: Pin<Box<dyn FStream>> = match kind {
        0 => {
            let b = ins.pop().unwrap();
            let a = ins.pop().unwrap();
            Box::pin(Term(stream::select(a, b)))
        }
        1 => {
            let b = ins.pop().unwrap();
            let a = ins.pop().unwrap();
            let plan = plan.clone();
            Box::pin(Term(stream::select_with_strategy(a, b, move |n: &mut usize| {
                let right = match strat {
                    0 => false,
                    1 => true,
                    2 => *n % 2 == 1,
                    _ => plan[*n % plan.len()],
                };
                *n += 1;
                a2.lock().unwrap().push(right);
                if right {
                    stream::PollNext::Right
                } else {
                    stream::PollNext::Left
                }
            })))
        }
        2 => Box::pin(Term(stream::select_all(ins))),
        6 => {
            // Errors of the outer stream count as one more input; some inner
            // items are errors.
            let mut outer: Vec<Result<_, Tok>> = ins
                .into_iter()
                .map(|s| {
                    let every = case.range(1, 4) as u64;
                    Ok(s.map(move |t| if t.v % every == 1 { Err(t) } else { Ok(t) }))
                })
                .collect();
            let errs = case.below(4);
            let mut at = 0;
            for j in 0..errs {
                at = case.range(at, outer.len());
                outer.insert(at, Err(case.tok((k * 100 + j) as u64)));
                at += 1;
            }
            lens.push(errs);
            let src = LStream::gen(&world, "outer", outer);
            let both = |r: Result<Tok, Tok>| r.unwrap_or_else(|e| e);
            if fused {
                Box::pin(Term(Box::pin(src.try_flatten_unordered(None).map(both))))
            } else {
                Box::pin(NoTerm(Box::pin(src.try_flatten_unordered(None).map(both))))
            }
        }
        3 => {
            let src = LStream::gen(&world, "outer", ins);
            if fused {
                Box::pin(Term(Box::pin(src.flatten_unordered(None))))
            } else {
                Box::pin(NoTerm(Box::pin(src.flatten_unordered(None))))
            }
        }
        4 => {
            let b = ins.pop().unwrap();
            let a = ins.pop().unwrap();
            Box::pin(NoTerm(futures::stream_select!(a, b)))
        }
        _ => {
            let c = ins.pop().unwrap();
            let b = ins.pop().unwrap();
            let a = ins.pop().unwrap();
            Box::pin(NoTerm(futures::stream_select!(a, b, c)))
        }
    };
    let _ = &mut term;
    let mut got: Vec<u64> = vec![];
    loop {
        let left: usize = lens.iter().sum::<usize>() - got.len();
        let (lo, hi) = s.size_hint();
        case.check(panics || lo <= left && hi.map_or(true, |h| h >= left), || format!("size_hint ({lo}, {hi:?}) with {left} items left"));
        case.check(s.term() != Some(true), || "claims to be terminated before its end was seen".into());
        let asked0 = asked.lock().unwrap().len();
        let both_open = sts.iter().all(|s| !s.done());
        let r = drive_chk(
            &mut p,
            &world,
            name,
            |cx| {
                if !panics {
                    return s.as_mut().poll_next(cx);
                }
                match catch_unwind(AssertUnwindSafe(|| s.as_mut().poll_next(cx))) {
                    Ok(r) => r,
                    Err(e) if e.is::<Injected>() => {
                        case.log(|| "panic".into());
                        cx.waker().wake_by_ref();
                        Poll::Pending
                    }
                    Err(e) => std::panic::resume_unwind(e),
                }
            },
            || {},
            || {
                for (i, st) in sts.iter().enumerate() {
                    if panics && i == who {
                        continue;
                    }
                    if !matches!(kind, 3 | 6) || st.started() {
                        case.check(st.done() || st.blocked(), || "idle although an input can make progress".into());
                    }
                }
            },
        );
        match r {
            Some(t) => {
                case.log(|| format!("-> {}", t.v));
                // With both inputs always ready the strategy alone decides.
                if kind == 1 && !gated && both_open {
                    let a = asked.lock().unwrap();
                    case.check(a.len() == asked0 + 1, || "the strategy is asked once per poll".into());
                    let right = a[asked0];
                    let i = right as usize;
                    if sts[i].items() <= lens[i] as u64 && !sts[i].done() {
                        case.eq((t.v / 100) as usize, i, "the side the strategy chose");
                    }
                }
                got.push(t.v);
            }
            None => break,
        }
    }
    // Round robin between ready inputs.
    if kind == 0 && !gated {
        let m = lens[0].min(lens[1]);
        for (n, v) in got.iter().take(2 * m).enumerate() {
            case.eq((v / 100) as usize, n % 2, "ready inputs alternate");
        }
    }
    // Nor is a ready input ignored by the others. (Inner streams join late.)
    if matches!(kind, 2 | 3 | 6) && !gated && !panics {
        for j in 0..k {
            let mut since: Option<Vec<usize>> = (kind == 2).then(|| vec![0; lens.len()]);
            let mut left = lens[j];
            for v in &got {
                let i = (*v / 100) as usize;
                if i == j {
                    left -= 1;
                    since = Some(vec![0; lens.len()]);
                } else if let (Some(c), true) = (&mut since, left > 0) {
                    c[i] += 1;
                    case.check(i >= k || c[i] <= 3, || format!("input {j} is ready and ignored for {i}: {got:?}"));
                }
            }
        }
    }
    if panics && given.lock().unwrap().1 {
        lens[who] = given.lock().unwrap().0;
        case.label("an_input_panicked");
    }
    check_merge(case, &got, &lens);
    case.check(s.term() != Some(false), || "not terminated after its end".into());
    // All of these may be polled again after the end.
    if case.bool() && !matches!(kind, 3 | 6) {
        case.check(matches!(p.poll(|cx| s.as_mut().poll_next(cx)), Poll::Ready(None)), || "no stable end".into());
    }
    drop(s);
    world.clear();
    case.no_leaks(name);
    case.label(name);
    if lens.iter().filter(|l| **l > 0).count() >= 2 {
        case.nontrivial();
    }
}

/// SelectAll as a collection: push, iterate, clear between polls.
fn select_all_seq(case: &Case) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    let mut live: BTreeMap<usize, (Arc<LeafSt>, usize, usize)> = BTreeMap::new();
    let mut n = 0usize;
    let mk = |n: &mut usize, live: &mut BTreeMap<usize, (Arc<LeafSt>, usize, usize)>| {
        let l = case.len(4);
        let i = *n;
        *n += 1;
        let s = LStream::gen(&world, format!("in{i}"), (0..l).map(|j| case.tok((i * 100 + j) as u64)));
        case.log(|| format!("add stream {i} with {l} items"));
        live.insert(i, (s.st.clone(), 0, l));
        Box::pin(s)
    };
    let mut set: stream::SelectAll<Pin<Box<LStream<Tok>>>> = match case.below(4) {
        0 => stream::SelectAll::new(),
        1 => Default::default(),
        _ => (0..case.below(4)).map(|_| mk(&mut n, &mut live)).collect(),
    };
    let mut pending = false;
    let mut term = Some(false);
    let mut out = 0;
    for _ in 0..case.big(4, 40, 300) {
        match case.below(10) {
            0..=4 => {
                if !pending || p.woken() || case.chance(1, 6) {
                    let was = p.woken();
                    let r = p.poll(|cx| set.poll_next_unpin(cx));
                    case.log(|| format!("poll_next -> {r:?}"));
                    match r {
                        Poll::Ready(Some(t)) => {
                            case.check(!pending || was, || format!("{t:?} available without a wakeup"));
                            let (i, j) = ((t.v / 100) as usize, (t.v % 100) as usize);
                            let m = live.get_mut(&i);
                            match m {
                                Some(m) => {
                                    case.eq(j, m.1, "items in order");
                                    m.1 += 1;
                                }
                                None => case.fail(format!("item {t:?} of a stream that is not in the set")),
                            }
                            pending = false;
                            term = Some(false);
                            out += 1;
                        }
                        Poll::Ready(None) => {
                            term = Some(true);
                            pending = false;
                        }
                        Poll::Pending => {
                            pending = true;
                            term = Some(false);
                            if !p.woken() {
                                for (i, m) in &live {
                                    case.check(m.0.done() || m.0.blocked(), || format!("idle although stream {i} can make progress"));
                                }
                            }
                        }
                    }
                    live.retain(|i, m| {
                        if m.0.done() {
                            case.eq(m.1, m.2, &format!("stream {i} ended with all its items delivered"));
                            case.check(m.0.dropped(), || format!("finished stream {i} kept alive"));
                        }
                        !m.0.done()
                    });
                    if term == Some(true) {
                        case.check(live.is_empty(), || "end with streams in the set".into());
                    }
                }
            }
            5 | 6 => {
                match case.below(4) {
                    0 => {
                        let k = case.below(3);
                        let v: Vec<_> = (0..k).map(|_| mk(&mut n, &mut live)).collect();
                        set.extend(v);
                        if k == 0 {
                            continue;
                        }
                    }
                    1 => {
                        // all the streams, out of the set and back
                        let it = std::mem::take(&mut set).into_iter();
                        case.log(|| "into_iter, refill".into());
                        case.eq(it.len(), live.len(), "length of into_iter");
                        let v: Vec<_> = it.collect();
                        let mut names: Vec<String> = v.iter().map(|s| s.name.clone()).collect();
                        names.sort();
                        let mut c: Vec<String> = live.keys().map(|k| format!("in{k}")).collect();
                        c.sort();
                        case.eq(names, c, "into_iter");
                        set = stream::select_all(v);
                        pending = false;
                        term = None;
                        continue;
                    }
                    _ => {
                        let s = mk(&mut n, &mut live);
                        set.push(s);
                    }
                }
                pending = false;
                term = Some(false);
            }
            7 | 8 => {
                world.fire_some();
            }
            _ => {
                if case.chance(1, 8) {
                    case.log(|| "clear".into());
                    set.clear();
                    for (i, m) in &live {
                        case.check(m.0.dropped(), || format!("clear left stream {i}"));
                    }
                    live.clear();
                    pending = false;
                    term = None;
                } else {
                    case.eq(set.len(), live.len(), "len");
                    case.eq(set.is_empty(), live.is_empty(), "is_empty");
                    let mut a: Vec<String> = (&set).into_iter().map(|s| s.name.clone()).collect();
                    let mut b: Vec<String> = (&mut set).into_iter().map(|s| s.name.clone()).collect();
                    a.sort();
                    b.sort();
                    let mut c: Vec<String> = live.keys().map(|k| format!("in{k}")).collect();
                    c.sort();
                    case.eq(&a, &c, "iter");
                    case.eq(&b, &c, "iter_mut");
                }
            }
        }
        if let Some(t) = term {
            case.eq(set.is_terminated(), t, "is_terminated");
        }
    }
    drop(set);
    world.clear();
    case.no_leaks("SelectAll");
    if out >= 2 && n >= 2 {
        case.nontrivial();
    }
}

struct TStream {
    /// `Some(ev)`: wait; `None`: the next item.
    script: VecDeque<Option<Arc<TEv>>>,
    items: VecDeque<Tok>,
    ended: bool,
}

impl Stream for TStream {
    type Item = Tok;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Tok>> {
        let s = &mut *self;
        assert!(!s.ended, "stream polled after its end");
        loop {
            match s.script.front() {
                None => {
                    s.ended = true;
                    return Poll::Ready(None);
                }
                Some(Some(e)) => {
                    if e.poll(cx).is_pending() {
                        return Poll::Pending;
                    }
                    s.script.pop_front();
                }
                Some(None) => {
                    s.script.pop_front();
                    return Poll::Ready(Some(s.items.pop_front().unwrap()));
                }
            }
        }
    }
}

struct TOuter {
    script: VecDeque<(Option<Arc<TEv>>, TStream)>,
    ended: bool,
}

impl Stream for TOuter {
    type Item = TStream;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<TStream>> {
        let s = &mut *self;
        assert!(!s.ended, "stream polled after its end");
        match s.script.front() {
            None => {
                s.ended = true;
                Poll::Ready(None)
            }
            Some((e, _)) => {
                if let Some(e) = e {
                    if e.poll(cx).is_pending() {
                        return Poll::Pending;
                    }
                }
                Poll::Ready(Some(s.script.pop_front().unwrap().1))
            }
        }
    }
}

fn merge_threads(case: &Case) {
    let k = case.range(1, 3);
    let n = case.range(1, 3);
    let mut lists: Vec<Vec<Arc<TEv>>> = vec![vec![]; k];
    let mut lens = vec![];
    let mut streams = vec![];
    for i in 0..n {
        let m = case.below(3);
        lens.push(m);
        let mut script = VecDeque::new();
        for _ in 0..m {
            if case.chance(2, 3) {
                let e: Arc<TEv> = Arc::default();
                lists[case.below(k)].push(e.clone());
                script.push_back(Some(e));
            }
            script.push_back(None);
        }
        if case.bool() {
            let e: Arc<TEv> = Arc::default();
            lists[case.below(k)].push(e.clone());
            script.push_back(Some(e));
        }
        streams.push(TStream { script, items: (0..m).map(|j| case.tok((i * 100 + j) as u64)).collect(), ended: false });
    }
    let flat = case.chance(3, 4);
    let limit = *case.pick(&[None, Some(1usize), Some(2)]);
    let outer_evs: Vec<Option<Arc<TEv>>> = (0..n)
        .map(|_| {
            case.bool().then(|| {
                let e: Arc<TEv> = Arc::default();
                let i = case.below(k);
                let at = case.below(lists[i].len() + 1);
                lists[i].insert(at, e.clone());
                e
            })
        })
        .collect();
    let seen = Arc::new(Mutex::new(vec![]));
    let out = seen.clone();
    let drop_after = if case.chance(1, 4) { case.below(3) } else { usize::MAX };
    let mut bodies: Vec<(String, Body)> = vec![(
        "owner".into(),
        body(move |th| {
            let mut s: Pin<Box<dyn Stream<Item = Tok>>> = if flat {
                Box::pin(
                    TOuter { script: outer_evs.into_iter().zip(streams).collect(), ended: false }.flatten_unordered(limit),
                )
            } else {
                Box::pin(stream::select_all(streams))
            };
            let mut got = vec![];
            while got.len() < drop_after {
                match th.block_on_fn(|cx| s.as_mut().poll_next(cx)) {
                    Some(t) => {
                        th.log(|| format!("item {t:?}"));
                        got.push(t.v)
                    }
                    None => break,
                }
            }
            if got.len() >= drop_after {
                let _ = th.poll_cx(|cx| s.as_mut().poll_next(cx));
            }
            drop(s);
            *out.lock().unwrap() = got;
        }),
    )];
    for (i, l) in lists.into_iter().enumerate() {
        bodies.push(firing(i, l));
    }
    par::run(case, bodies);
    let g = seen.lock().unwrap().clone();
    if drop_after == usize::MAX {
        check_merge(case, &g, &lens);
    } else {
        case.label("dropped_midway");
    }
    case.no_leaks("merge, threads");
    case.nontrivial();
}

/// What a thread wrote before it woke an input (also one woken already) is seen
/// by a poll of that input: the merged stream yields all items.
fn merge_publish(case: &Case) {
    let n = case.range(1, 3);
    let mut bodies: Vec<(String, Body)> = vec![];
    let mut fs = vec![];
    let fin: Arc<std::sync::atomic::AtomicUsize> = Default::default();
    for i in 0..n {
        let (f, b) = vh::thr::published_as(case.bool(), case.below(3), false, &fin);
        fs.push(f);
        bodies.push((format!("waker{i}"), b));
    }
    let s: Pin<Box<dyn Stream<Item = u64> + Send>> = match case.below(4) {
        // The outer stream is the one that is woken.
        0 | 1 => Box::pin(stream::iter(fs).then(|f| f).map(|v| stream::iter([v])).flatten_unordered(case.below(3))),
        2 => Box::pin(stream::iter(fs.into_iter().map(|f| Box::pin(stream::once(f)))).flatten_unordered(None)),
        _ => Box::pin(stream::select_all(fs.into_iter().map(|f| Box::pin(stream::once(f))))),
    };
    publish_drive(case, s, n, fin, bodies);
}

fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "merge: select, select_with_strategy, select_all, flatten_unordered, try_flatten_unordered, stream_select! over 0-5 (now and then 36) generated inputs (gated or always ready; one may panic), checked for exactly-once, per-input order, end, idleness, fairness/strategy, size_hint; collection: push/poll/iterate/clear histories of SelectAll; threads: flatten_unordered/select_all with wakers on 1-3 controlled threads; publish: data written before a wake (after 0-2 earlier ones) of an input. Non-trivial: >=2 non-empty inputs / >=2 items from >=2 streams / every thread case.",
        subs: vec![
            sub("merge", merge, 1_500_000, 15_000_000).miri(48, 1500),
            sub("collection", select_all_seq, 750_000, 7_500_000).miri(32, 1000),
            sub("threads", merge_threads, 80_000, 2_000_000).miri(120, 3000),
            sub("publish", merge_publish, 10_000, 100_000).miri(64, 2000),
        ],
    }
}
