//! C16 Shared, C17 abort and remote handles, C18 async Mutex, C19 BiLock and split.
use futures::future::{self, AbortHandle, Abortable, Aborted, FusedFuture, FutureExt, Shared, WeakShared};
use futures::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use futures::lock::{BiLock, Mutex as AMutex, MutexGuard};
use futures::sink::{Sink, SinkExt};
use futures::stream::{Stream, StreamExt};
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use vh::case::Injected;
use vh::leaf::{gates, LFut, LStream, SStep};
use vh::par::{self, body, Body};
use vh::runner::sub;
use vh::sim::{drive, Poller, World};
use vh::thr::{pt, Evs, TFut};
use vh::{main_for, Case, Prop, Tok};

fn is_injected(e: &(dyn std::any::Any + Send)) -> bool {
    e.downcast_ref::<Injected>().map(|i| i.0) == Some(99)
}

// ------------------------------------------------------------------ C16

type Sh = Shared<TFut<Tok>>;

fn shared_threads(case: &Case) {
    let evs = Evs::new();
    let need = case.range(0, 2);
    let mut f = TFut::new(case, &evs, need, case.tok(5));
    f.panics = case.chance(1, 8);
    let panics = f.panics;
    let w = f.w.clone();
    let first: Sh = f.shared();
    let n = case.range(2, 3);
    let mut handles: Vec<Sh> = (1..n).map(|_| first.clone()).collect();
    handles.push(first);
    let weak: Option<WeakShared<TFut<Tok>>> = if case.chance(1, 4) { handles[0].downgrade() } else { None };
    let survivors = Arc::new(AtomicUsize::new(0));
    let mut bodies: Vec<(String, Body)> = vec![];
    for (i, h) in handles.into_iter().enumerate() {
        // 0: to the end; 1: dropped after some polls; 2: clones itself on the way
        let mode = case.weighted(&[4, 3, 1, 2]);
        let weak = if i == 0 { weak.clone() } else { None };
        let surv = survivors.clone();
        let w = w.clone();
        bodies.push((
            format!("handle{i}"),
            body(move |th| {
                let mut h = h;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    match mode {
                        1 => {
                            for _ in 0..th.below(3) {
                                if let Poll::Ready(t) = th.poll(Pin::new(&mut h)) {
                                    th.check(t.v == 5, || format!("value {}", t.v));
                                    surv.fetch_add(1, Relaxed);
                                    return;
                                }
                                if th.below(2) == 0 {
                                    th.point()
                                }
                            }
                            drop(h);
                            return;
                        }
                        2 => {
                            let _ = th.poll(Pin::new(&mut h)).map(|t| th.check(t.v == 5, || "value".into()));
                            if h.is_terminated() {
                                surv.fetch_add(1, Relaxed);
                                return;
                            }
                            h = h.clone();
                        }
                        3 => {
                            // Nothing but `peek` orders this thread after the completion.
                            for _ in 0..if cfg!(miri) { 60 } else { 1 + th.below(4) } {
                                if let Some(t) = h.peek() {
                                    th.check(t.v == 5, || "peeked value".into());
                                    th.check(cfg!(miri) || w.done.load(Relaxed), || "peek before completion".into());
                                    break;
                                }
                                th.pause();
                            }
                        }
                        _ => {}
                    }
                    let t = th.block_on(&mut h);
                    th.check(t.v == 5, || format!("value {}", t.v));
                    th.check(h.is_terminated(), || "not terminated after completion".into());
                    surv.fetch_add(1, Relaxed);
                    if let Some(h2) = weak.as_ref().and_then(|w| w.upgrade()) {
                        th.label("upgraded");
                        th.check(h2.peek().map(|t| t.v) == Some(5), || "no output in an upgraded handle of a completed future".into());
                        let t = th.block_on(h2);
                        th.check(t.v == 5, || "value of the upgraded handle".into());
                    }
                }));
                if let Err(e) = r {
                    if !panics || e.is::<vh::case::Failed>() || e.is::<vh::case::Inconclusive>() {
                        std::panic::resume_unwind(e)
                    }
                }
            }),
        ));
    }
    {
        let evs = evs.clone();
        bodies.push((
            "events".into(),
            body(move |th| {
                for _ in 0..need {
                    th.point();
                    evs.fire();
                }
            }),
        ));
    }
    case.label_if(panics, "panicking");
    par::run(case, bodies);
    drop(weak);
    evs.0.lock().unwrap().1.clear();
    if w.polls.load(Relaxed) > 1 || survivors.load(Relaxed) > 1 {
        case.nontrivial();
    }
    case.check(w.dropped.load(Relaxed), || "the inner future was never dropped".into());
    case.no_leaks("shared");
}

/// Histories of one task set: clones, polls, drops, events.
fn shared_seq(case: &Case) {
    let world = World::new(case);
    let panics = case.chance(1, 10);
    let f = if panics {
        LFut::panicking(&world, "inner", gates(&world), 7)
    } else {
        LFut::gen(&world, "inner", case.tok(5))
    };
    let st = f.st.clone();
    let mut hs: Vec<(Option<Shared<LFut<Tok>>>, Poller, bool)> = vec![(Some(f.shared()), Poller::new(case), false)];
    let mut weak: Vec<WeakShared<LFut<Tok>>> = vec![];
    let mut got = 0;
    let mut poisoned = false;
    let steps = case.range(2, 30);
    let mut step = 0;
    loop {
        let draining = step >= steps;
        step += 1;
        case.step();
        let live: Vec<usize> = (0..hs.len()).filter(|i| hs[*i].0.is_some()).collect();
        if live.is_empty() {
            break;
        }
        let op = if draining { 0 } else { case.weighted(&[6, 2, 2, 3, 1, 1, 1]) };
        match op {
            0 => {
                // poll a woken handle, or fire
                let ready: Vec<usize> = live.iter().copied().filter(|i| hs[*i].1.woken()).collect();
                let waiting = world.waiting();
                if !ready.is_empty() && (waiting.is_empty() || case.bool()) {
                    let i = ready[case.below(ready.len())];
                    let (h, p, pend) = &mut hs[i];
                    let complete = st.done() && !poisoned;
                    let before = h.as_ref().unwrap().strong_count();
                    let r = catch_unwind(AssertUnwindSafe(|| p.poll(|cx| Pin::new(h.as_mut().unwrap()).poll(cx))));
                    case.log(|| format!("poll {i} -> {r:?}"));
                    match r {
                        Ok(Poll::Ready(t)) => {
                            case.eq(t.v, 5, "value");
                            case.check(st.done() && !poisoned, || "a value although the future did not complete".into());
                            let h = h.as_ref().unwrap();
                            case.check(h.is_terminated() && h.peek().is_none() && h.strong_count().is_none() && h.downgrade().is_none(), || "completed handle is not terminated".into());
                            if h.is_terminated() && case.bool() {
                                case.check(h.clone().is_terminated(), || "clone of a completed handle is not terminated".into());
                            }
                            hs[i].0 = None;
                            got += 1;
                        }
                        Ok(Poll::Pending) => {
                            *pend = true;
                            case.check(!complete, || "pending although the output is there".into());
                            case.check(!st.done(), || "pending although the future has just completed".into());
                            case.eq(h.as_ref().unwrap().strong_count(), before, "strong count");
                        }
                        Err(e) => {
                            if e.is::<vh::case::Failed>() {
                                std::panic::resume_unwind(e)
                            }
                            case.check(panics && st.done(), || "panic although the future did not".into());
                            if !poisoned {
                                case.check(e.downcast_ref::<Injected>().map(|x| x.0) == Some(7), || "wrong panic payload".into());
                            }
                            poisoned = true;
                            hs[i].0 = None;
                            got += 1;
                        }
                    }
                } else if !waiting.is_empty() {
                    world.fire(waiting[case.below(waiting.len())]);
                } else if draining {
                    case.fail("shared: stalled, handles are waiting and nothing will wake them");
                }
            }
            1 => {
                let i = *case.pick(&live);
                let c = hs[i].0.clone();
                case.check(c.as_ref().unwrap().ptr_eq(hs[i].0.as_ref().unwrap()), || "clone is not equal".into());
                hs.push((c, Poller::new(case), false));
            }
            2 => {
                let i = *case.pick(&live);
                case.log(|| format!("drop {i}"));
                hs[i].0 = None;
            }
            3 => {
                let waiting = world.waiting();
                if !waiting.is_empty() {
                    world.fire(waiting[case.below(waiting.len())]);
                }
            }
            4 => {
                let i = *case.pick(&live);
                let h = hs[i].0.as_ref().unwrap();
                if !poisoned {
                    let done = st.done();
                    case.eq(h.peek().map(|t| t.v), if done { Some(5) } else { None }, "peek");
                } else {
                    let r = catch_unwind(AssertUnwindSafe(|| h.peek().is_some()));
                    case.check(r.is_err(), || "peeking does not report that the future panicked".into());
                }
                case.eq(h.strong_count(), Some(live.len()), "strong count");
                case.eq(h.weak_count(), Some(weak.len()), "weak count");
                let hash = |h: &futures::future::Shared<_>| {
                    let mut s = std::collections::hash_map::DefaultHasher::new();
                    h.ptr_hash(&mut s);
                    std::hash::Hasher::finish(&s)
                };
                let o = hs[live[0]].0.as_ref().unwrap();
                case.check(h.ptr_eq(o) && hash(h) == hash(o), || "handles of one future are not equal".into());
            }
            5 => {
                let i = *case.pick(&live);
                weak.extend(hs[i].0.as_ref().unwrap().downgrade());
            }
            _ => {
                if let Some(w) = weak.last() {
                    match w.upgrade() {
                        Some(h) => {
                            case.check(h.ptr_eq(hs[live[0]].0.as_ref().unwrap()), || "upgraded to something else".into());
                            hs.push((Some(h), Poller::new(case), false));
                            case.label("upgraded");
                        }
                        None => case.fail("upgrade failed although handles are alive"),
                    }
                }
            }
        }
    }
    for w in &weak {
        case.check(w.upgrade().is_none(), || "upgraded after all handles are gone".into());
    }
    case.check(st.dropped(), || "future not dropped with the last handle".into());
    if hs.len() >= 2 && got >= 1 {
        case.nontrivial();
    }
    drop(hs);
    drop(weak);
    world.clear();
    case.no_leaks("shared");
}

// ------------------------------------------------------------------ C17

fn abort_threads(case: &Case) {
    let evs = Evs::new();
    let need = *case.pick(&[0, 1, 2, usize::MAX]);
    let fires = case.range(0, 2);
    let aborts = case.range(if need > fires { 1 } else { 0 }, 2);
    let f = TFut::new(case, &evs, need, case.tok(3));
    let w = f.w.clone();
    let (h, reg) = AbortHandle::new_pair();
    let extra = reg.handle();
    let called = Arc::new(AtomicBool::new(false));
    let returned = Arc::new(AtomicBool::new(false));
    let mut bodies: Vec<(String, Body)> = vec![];
    {
        let (called, returned, w) = (called.clone(), returned.clone(), w.clone());
        bodies.push((
            "task".into(),
            body(move |th| {
                let mut f = pin!(Abortable::new(f, reg));
                let r = th.block_on_fn(|cx| {
                    if returned.load(Relaxed) {
                        w.forbidden.store(true, Relaxed);
                    }
                    f.as_mut().poll(cx)
                });
                th.log(|| format!("task -> {:?}", r.as_ref().map(|t| t.v)));
                match r {
                    Ok(t) => th.check(t.v == 3 && w.done.load(Relaxed), || "wrong output".into()),
                    Err(Aborted) => {
                        th.check(cfg!(miri) || called.load(Relaxed), || "aborted although nobody called abort".into());
                        th.check(f.is_aborted(), || "aborted, but is_aborted is false".into());
                        th.label("aborted");
                    }
                }
            }),
        ));
    }
    for (i, h) in [h, extra].into_iter().take(aborts).enumerate() {
        let (called, returned) = (called.clone(), returned.clone());
        bodies.push((
            format!("abort{i}"),
            body(move |th| {
                th.point();
                called.store(true, Relaxed);
                h.abort();
                th.check(h.is_aborted(), || "is_aborted false after abort".into());
                if !cfg!(miri) {
                    returned.store(true, Relaxed);
                }
            }),
        ));
    }
    {
        let evs = evs.clone();
        bodies.push((
            "events".into(),
            body(move |th| {
                for _ in 0..fires {
                    th.point();
                    evs.fire();
                }
            }),
        ));
    }
    par::run(case, bodies);
    evs.0.lock().unwrap().1.clear();
    if aborts > 0 && w.polls.load(Relaxed) > 0 {
        case.nontrivial();
    }
    case.check(w.dropped.load(Relaxed), || "future not dropped".into());
    case.no_leaks("abortable");
}

/// Abortable futures and streams in histories.
fn abort_seq(case: &Case) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    let n = case.len(5) as u64;
    let s = LStream::gen(&world, "s", (0..n).map(|i| case.tok(i)).collect::<Vec<_>>());
    let st = s.st.clone();
    let as_future = case.bool();
    let before = case.chance(1, 8);
    let (h, reg) = AbortHandle::new_pair();
    let mut aborted = before;
    if before {
        h.abort();
    }
    let f = LFut::gen(&world, "f", case.tok(70));
    let fst = f.st.clone();
    enum A {
        F(Pin<Box<Abortable<LFut<Tok>>>>),
        S(Pin<Box<Abortable<LStream<Tok>>>>),
    }
    let (mut a, st) = if as_future {
        drop(s);
        (A::F(Box::pin(Abortable::new(f, reg))), fst)
    } else {
        drop(f);
        (A::S(Box::pin(Abortable::new(s, reg))), st)
    };
    let mut got = 0u64;
    loop {
        case.step();
        let isa = match &a {
            A::F(f) => f.is_aborted(),
            A::S(s) => s.is_aborted(),
        };
        case.eq(isa, aborted, "is_aborted");
        case.eq(h.is_aborted(), aborted, "handle is_aborted");
        let w = world.waiting();
        if !aborted && case.chance(1, 8) {
            // clones of the handle are as good
            if case.bool() {
                h.clone().abort()
            } else {
                h.abort()
            }
            aborted = true;
            case.log(|| "abort".into());
            // the task has to learn about it
            case.check(p.woken(), || "abort did not wake the task".into());
        } else if p.woken() && (w.is_empty() || !case.chance(1, 3)) {
            let polls = st.polls();
            let (end, item) = match &mut a {
                A::F(f) => match p.poll(|cx| f.as_mut().poll(cx)) {
                    Poll::Ready(Ok(t)) => {
                        case.eq(t.v, 70, "output");
                        (Some(false), true)
                    }
                    Poll::Ready(Err(Aborted)) => (Some(true), false),
                    Poll::Pending => (None, false),
                },
                A::S(s) => match p.poll(|cx| s.as_mut().poll_next(cx)) {
                    Poll::Ready(Some(t)) => {
                        case.eq(t.v, got, "item");
                        got += 1;
                        (None, true)
                    }
                    Poll::Ready(None) => (Some(aborted), false),
                    Poll::Pending => (None, false),
                },
            };
            case.log(|| format!("poll -> end {end:?} item {item}"));
            if aborted {
                case.check(!item, || "progress after abort".into());
                case.eq(st.polls(), polls, "polls of the inner task after abort");
                case.check(end == Some(true), || "not ended after abort".into());
            }
            match end {
                Some(true) => {
                    case.check(aborted, || "aborted without abort".into());
                    break;
                }
                Some(false) => {
                    case.check(as_future || got == n, || "ended early".into());
                    break;
                }
                None => {}
            }
        } else if !w.is_empty() {
            world.fire(w[case.below(w.len())]);
        } else {
            case.fail("abortable: stalled (lost wakeup)");
        }
    }
    if st.polls() > 0 {
        case.nontrivial();
    }
    case.label_if(aborted, "aborted");
    drop(a);
    world.clear();
    case.no_leaks("abortable");
}

fn remote_threads(case: &Case) {
    let evs = Evs::new();
    // 0 await, 1 poll some then drop, 2 forget, 3 drop at once, 4 poll then forget
    let mode = case.below(5);
    let exec_drops = case.chance(1, 5);
    let fires = case.range(0, 2);
    let keeps = mode == 2 || mode == 4 || mode == 0;
    let need = if keeps { case.range(0, fires) } else { *case.pick(&[0, 1, 2, usize::MAX]) };
    let mut f = TFut::new(case, &evs, need, case.tok(3));
    f.panics = case.chance(1, 5);
    let panics = f.panics;
    let w = f.w.clone();
    let (remote, handle) = f.remote_handle();
    let gone = Arc::new(AtomicBool::new(false));
    let exec_done = Arc::new(AtomicUsize::new(0));
    let mut bodies: Vec<(String, Body)> = vec![];
    {
        let (gone, w, exec_done) = (gone.clone(), w.clone(), exec_done.clone());
        bodies.push((
            "executor".into(),
            body(move |th| {
                let mut r = Box::pin(remote);
                if exec_drops {
                    for _ in 0..th.below(3) {
                        if th.poll(r.as_mut()).is_ready() {
                            break;
                        }
                        th.point();
                    }
                    drop(r);
                    return;
                }
                th.block_on_fn(|cx| {
                    if gone.load(Relaxed) {
                        w.forbidden.store(true, Relaxed)
                    }
                    r.as_mut().poll(cx)
                });
                exec_done.store(1, Relaxed);
                drop(r);
            }),
        ));
    }
    {
        let (gone, w) = (gone.clone(), w.clone());
        bodies.push((
            "handle".into(),
            body(move |th| {
                let mut h = handle;
                let r = catch_unwind(AssertUnwindSafe(|| match mode {
                    0 => Some(th.block_on(&mut h)),
                    1 | 4 => {
                        for _ in 0..th.below(3) {
                            if let Poll::Ready(t) = th.poll(Pin::new(&mut h)) {
                                return Some(t);
                            }
                            th.point();
                        }
                        None
                    }
                    _ => None,
                }));
                match r {
                    Ok(Some(t)) => {
                        th.check(t.v == 3 && w.done.load(Relaxed), || "wrong output".into());
                        th.label("output");
                    }
                    Ok(None) => {
                        if mode == 2 || mode == 4 {
                            h.forget();
                        } else {
                            drop(h);
                            if !cfg!(miri) {
                                gone.store(true, Relaxed);
                            }
                        }
                    }
                    Err(e) => {
                        if e.is::<vh::case::Failed>() || e.is::<vh::case::Inconclusive>() {
                            std::panic::resume_unwind(e)
                        }
                        if is_injected(&*e) {
                            th.check(panics, || "panic out of nowhere".into());
                            th.label("panic_passed_on");
                        } else {
                            th.check(exec_drops && e.is::<futures::channel::oneshot::Canceled>(), || "the handle panics although the remote future was not dropped".into());
                            th.label("remote_dropped");
                        }
                    }
                }
            }),
        ));
    }
    {
        let evs = evs.clone();
        bodies.push((
            "events".into(),
            body(move |th| {
                for _ in 0..fires {
                    th.point();
                    evs.fire();
                }
            }),
        ));
    }
    par::run(case, bodies);
    evs.0.lock().unwrap().1.clear();
    if keeps && !exec_drops {
        case.check(w.done.load(Relaxed), || "a kept or forgotten remote future did not run to its end".into());
    }
    if w.polls.load(Relaxed) > 0 {
        case.nontrivial();
    }
    case.check(w.dropped.load(Relaxed), || "future not dropped".into());
    case.no_leaks("remote handle");
}

// ------------------------------------------------------------------ C18

/// Plain memory guarded by the lock under test. Under Miri a race is UB; in
/// the controlled schedule an overlap is seen through `inside`.
struct Guarded {
    n: u64,
    inside: bool,
    tok: Tok,
}

fn enter(case: &Case, g: &mut Guarded) {
    case.check(!g.inside, || "two holders of the lock at once".into());
    g.inside = true;
    let n = g.n;
    pt();
    g.n = n + 1;
    g.inside = false;
}

fn mutex_threads(case: &Case) {
    let m = Arc::new(AMutex::new(Guarded { n: 0, inside: false, tok: case.tok(1) }));
    let n = case.range(2, 4);
    let total = Arc::new(AtomicUsize::new(0));
    let waits = Arc::new(AtomicUsize::new(0));
    let mut bodies: Vec<(String, Body)> = vec![];
    for i in 0..n {
        let m = m.clone();
        let total = total.clone();
        let waits = waits.clone();
        let iters = case.range(1, 3);
        bodies.push((
            format!("t{i}"),
            body(move |th| {
                for _ in 0..iters {
                    let c = &th.case;
                    match th.below(7) {
                        0 | 1 => {
                            let mut f = m.lock();
                            let mut first = true;
                            let mut g = th.block_on_fn(|cx| {
                                let r = Pin::new(&mut f).poll(cx);
                                if r.is_pending() && first {
                                    first = false;
                                    waits.fetch_add(1, Relaxed);
                                }
                                r
                            });
                            c.check(f.is_terminated(), || "lock future not terminated".into());
                            enter(c, &mut g);
                        }
                        2 => {
                            let mut g = th.block_on(m.clone().lock_owned());
                            enter(c, &mut g);
                        }
                        3 => {
                            if let Some(mut g) = m.try_lock() {
                                enter(c, &mut g);
                            } else {
                                continue;
                            }
                        }
                        4 => {
                            // ask, then give up
                            let mut f = m.lock();
                            let mut ok = false;
                            for _ in 0..1 + th.below(2) {
                                if let Poll::Ready(mut g) = th.poll(Pin::new(&mut f)) {
                                    enter(c, &mut g);
                                    ok = true;
                                    break;
                                }
                                th.point();
                            }
                            th.label("cancelled");
                            if !ok {
                                continue;
                            }
                        }
                        5 => {
                            let mut f = m.clone().lock_owned();
                            let mut ok = false;
                            for _ in 0..1 + th.below(2) {
                                if let Poll::Ready(mut g) = th.poll(Pin::new(&mut f)) {
                                    enter(c, &mut g);
                                    ok = true;
                                    break;
                                }
                                th.point();
                            }
                            th.label("cancelled");
                            if !ok {
                                continue;
                            }
                        }
                        _ => {
                            let g = th.block_on(m.lock());
                            let mut g = MutexGuard::map(g, |x| x);
                            enter(c, &mut g);
                            // a mapped guard still holds the lock
                            th.check(m.try_lock().is_none(), || "mapped guard does not hold the lock".into());
                        }
                    }
                    total.fetch_add(1, Relaxed);
                }
            }),
        ));
    }
    par::run(case, bodies);
    case.check(m.try_lock().is_some(), || "free mutex cannot be locked".into());
    let g = Arc::try_unwrap(m).ok().expect("mutex still shared").into_inner();
    case.eq(g.n, total.load(Relaxed) as u64, "critical sections");
    if waits.load(Relaxed) > 0 {
        case.nontrivial();
    }
    drop(g.tok);
    case.no_leaks("mutex");
}

/// Histories with many waiters; the oracle is local: whenever the mutex is
/// free and somebody waits, at least one waiter has been woken.
fn mutex_seq(case: &Case) {
    use futures::lock::{MappedMutexGuard, MutexLockFuture, OwnedMutexGuard, OwnedMutexLockFuture};
    let m = Arc::new(match case.below(3) {
        0 => AMutex::new(0u64),
        1 => AMutex::from(0u64),
        _ => AMutex::default(),
    });
    let mr: &AMutex<u64> = &m;
    let mut val = 0u64;
    enum W<'a> {
        B(MutexLockFuture<'a, u64>),
        O(OwnedMutexLockFuture<u64>),
    }
    enum G<'a> {
        B(MutexGuard<'a, u64>),
        O(OwnedMutexGuard<u64>),
        M(futures::lock::MappedMutexGuard<'a, u64, u64>),
    }
    let mut ws: Vec<Option<(W<'_>, Poller, bool)>> = vec![];
    let mut held: Option<G<'_>> = None;
    let steps = case.range(3, 40);
    let (mut locks, mut contended) = (0u64, 0);
    let mut step = 0;
    loop {
        let draining = step >= steps;
        step += 1;
        case.step();
        let live: Vec<usize> = (0..ws.len()).filter(|i| ws[*i].is_some()).collect();
        let ready: Vec<usize> = live.iter().copied().filter(|i| ws[*i].as_ref().unwrap().1.woken()).collect();
        // polled, pending and not woken
        if held.is_none() && !live.is_empty() && ready.is_empty() {
            case.fail("mutex: free, with waiters, and none of them has been woken");
        }
        if draining && live.is_empty() && held.is_none() {
            break;
        }
        let op = if draining { if held.is_some() { 2 } else { 1 } } else { case.weighted(&[4, 5, 4, 3, 2, 1]) };
        match op {
            0 => {
                let w = if case.bool() { W::B(mr.lock()) } else { W::O(m.clone().lock_owned()) };
                ws.push(Some((w, Poller::new(case), false)));
            }
            1 => {
                let spurious = case.chance(1, 6);
                let set = if spurious { &live } else { &ready };
                if set.is_empty() {
                    continue;
                }
                let i = *case.pick(set);
                let (w, p, pend) = ws[i].as_mut().unwrap();
                let r = match w {
                    W::B(f) => p.poll(|cx| Pin::new(f).poll(cx)).map(G::B),
                    W::O(f) => p.poll(|cx| Pin::new(f).poll(cx)).map(G::O),
                };
                case.log(|| format!("poll {i} -> {}", if r.is_ready() { "locked" } else { "pending" }));
                match r {
                    Poll::Ready(g) => {
                        case.check(held.is_none(), || "locked twice".into());
                        if *pend {
                            contended += 1;
                        }
                        held = Some(g);
                        locks += 1;
                        ws[i] = None;
                    }
                    Poll::Pending => {
                        *pend = true;
                        case.check(held.is_some(), || "pending although the mutex is free".into());
                    }
                }
            }
            2 => {
                if let Some(g) = held.take() {
                    case.log(|| "unlock".into());
                    let seen = match &g {
                        G::B(g) => **g,
                        G::O(g) => **g,
                        G::M(g) => **g,
                    };
                    case.eq(seen, val, "value seen by the holder");
                    val += 1;
                    match g {
                        G::B(mut g) => *g += 1,
                        G::O(mut g) => *g += 1,
                        G::M(mut g) => *g += 1,
                    }
                }
            }
            3 => {
                if !live.is_empty() {
                    let i = *case.pick(&live);
                    case.log(|| format!("cancel {i}"));
                    ws[i] = None;
                    case.label("cancelled");
                }
            }
            4 => {
                let r = if case.bool() { mr.try_lock().map(G::B) } else { m.try_lock_owned().map(G::O) };
                case.eq(r.is_some(), held.is_none(), "try_lock succeeds iff free");
                if r.is_some() {
                    locks += 1;
                    held = r;
                }
            }
            _ => {
                // a panic in the mapping function releases the lock
                let mapped = matches!(held, Some(G::B(_) | G::M(_)));
                let boom = case.chance(1, 4);
                fn ident(x: &mut u64) -> &mut u64 {
                    x
                }
                fn panics(_: &mut u64) -> &mut u64 {
                    std::panic::resume_unwind(Box::new(7u8))
                }
                let f = if boom { panics } else { ident };
                held = match held.take() {
                    Some(G::B(g)) => catch_unwind(AssertUnwindSafe(|| G::M(MutexGuard::map(g, f)))).ok(),
                    Some(G::M(g)) => catch_unwind(AssertUnwindSafe(|| G::M(MappedMutexGuard::map(g, f)))).ok(),
                    g => g,
                };
                if boom && held.is_none() && mapped {
                    locks -= 1;
                    case.label("map panicked");
                }
            }
        }
    }
    drop((ws, held));
    case.eq(*mr.try_lock().unwrap(), locks, "locks");
    let mut m = Arc::try_unwrap(m).ok().unwrap();
    *m.get_mut() += 1;
    case.eq(m.into_inner(), locks + 1, "into_inner");
    if contended >= 2 {
        case.nontrivial();
    }
}

/// A mapped guard stands for the mapped part, and for the lock on the whole.
fn mutex_map(case: &Case) {
    use futures::lock::MappedMutexGuard;
    type V = (u64, [u64; 3], Vec<u64>);
    let m: AMutex<V> = AMutex::new((1, [10, 20, 30], vec![5; 4]));
    let mut want: V = (1, [10, 20, 30], vec![5; 4]);
    for _ in 0..case.range(1, 6) {
        let k = case.byte() as u64;
        let g = m.try_lock().unwrap_or_else(|| case.fail("a free mutex cannot be locked"));
        case.eq(&*g, &want, "value under the lock");
        let free = |when: &str| case.check(m.try_lock().is_none(), || format!("not locked while {when}"));
        let how = case.below(4);
        let i = case.below(3);
        case.log(|| format!("map {how} at {i}: {k}"));
        match how {
            0 => {
                let mut g = MutexGuard::map(g, |v| &mut v.0);
                case.eq(*g, want.0, "mapped value");
                *g = k;
                want.0 = k;
                free("a mapped guard lives");
            }
            1 => {
                let g = MutexGuard::map(g, |v| &mut v.1);
                let mut g = MappedMutexGuard::map(g, |a| &mut a[i]);
                case.eq(*g, want.1[i], "mapped value");
                *g = k;
                want.1[i] = k;
                free("a twice mapped guard lives");
            }
            2 => {
                let mut g = MutexGuard::map(g, |v| &mut v.2[..]);
                case.eq(&*g, &want.2[..], "mapped value");
                g[i] = k;
                want.2[i] = k;
                free("a mapped guard lives");
            }
            _ => {
                let g = MutexGuard::map(g, |v| {
                    v.0 += 1;
                    &mut v.2
                });
                want.0 += 1;
                let mut g = MappedMutexGuard::map(g, |v| {
                    v.push(k);
                    v.last_mut().unwrap()
                });
                *g ^= 1;
                want.2.push(k ^ 1);
                free("a twice mapped guard lives");
            }
        }
        case.nontrivial();
    }
    case.check(m.try_lock().is_some(), || "a free mutex cannot be locked".into());
    case.eq(m.into_inner(), want, "value");
}

// ------------------------------------------------------------------ C19

fn bilock_threads(case: &Case) {
    let (a, b) = BiLock::new(Guarded { n: 0, inside: false, tok: case.tok(1) });
    let total = Arc::new(AtomicUsize::new(0));
    let back = Arc::new(Mutex::new(vec![]));
    let waits = Arc::new(AtomicUsize::new(0));
    let mut bodies: Vec<(String, Body)> = vec![];
    for (i, l) in [a, b].into_iter().enumerate() {
        let total = total.clone();
        let back = back.clone();
        let waits = waits.clone();
        let iters = case.range(1, 4);
        let lose = case.chance(1, 6);
        bodies.push((
            format!("half{i}"),
            body(move |th| {
                for _ in 0..iters {
                    let c = &th.case;
                    match th.below(4) {
                        0 | 1 => {
                            let mut g = th.block_on(l.lock());
                            enter(c, &mut g);
                        }
                        2 => {
                            let mut first = true;
                            let mut g = th.block_on_fn(|cx| {
                                let r = l.poll_lock(cx);
                                if r.is_pending() && first {
                                    first = false;
                                    waits.fetch_add(1, Relaxed);
                                }
                                r
                            });
                            // pinned access reaches the same value
                            let n = g.n;
                            c.check(g.as_pin_mut().n == n, || "as_pin_mut".into());
                            enter(c, &mut g);
                        }
                        _ => {
                            let r = th.poll_cx(|cx| match l.poll_lock(cx) {
                                Poll::Ready(mut g) => {
                                    enter(c, &mut g);
                                    true
                                }
                                Poll::Pending => false,
                            });
                            th.label("cancelled");
                            if !r {
                                continue;
                            }
                        }
                    }
                    total.fetch_add(1, Relaxed);
                }
                if lose {
                    drop(l);
                } else {
                    back.lock().unwrap().push(l);
                }
            }),
        ));
    }
    par::run(case, bodies);
    let mut v = std::mem::take(&mut *back.lock().unwrap());
    if v.len() == 2 {
        let (b, a) = (v.pop().unwrap(), v.pop().unwrap());
        case.check(a.is_pair_of(&b), || "halves are not a pair".into());
        match a.reunite(b) {
            Ok(g) => case.eq(g.n, total.load(Relaxed) as u64, "critical sections"),
            Err(_) => case.fail("a pair could not be reunited"),
        }
    }
    drop(v);
    if waits.load(Relaxed) > 0 {
        case.nontrivial();
    }
    case.no_leaks("bilock");
}

/// A duplex object: a stream, a sink, a reader and a writer, with everything
/// it is told recorded. Never to be used from both halves at once.
struct Duplex {
    case: Case,
    evs: Evs,
    seen_r: usize,
    inp: VecDeque<Tok>,
    out: Vec<Tok>,
    bytes: Vec<u8>,
    rpos: usize,
    rlen: usize,
    buffered: Option<Tok>,
    closed: bool,
    inside: bool,
    fail_flush: bool,
    flushed: usize,
    vectored: usize,
}

impl Duplex {
    fn enter<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        let c = self.case.clone();
        c.check(!self.inside, || "both halves in the object at once".into());
        self.inside = true;
        pt();
        let r = f(self);
        self.inside = false;
        r
    }
}
impl Stream for Duplex {
    type Item = Tok;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Tok>> {
        self.enter(|s| {
            if let Some(t) = s.inp.front() {
                if s.evs.poll(t.v as usize % 3, cx).is_pending() {
                    s.seen_r += 1;
                    return Poll::Pending;
                }
            }
            Poll::Ready(s.inp.pop_front())
        })
    }
}
impl Sink<Tok> for Duplex {
    type Error = u64;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u64>> {
        self.enter(|s| {
            let n = s.out.len();
            if s.buffered.is_some() {
                if s.evs.poll(n % 3, cx).is_pending() {
                    return Poll::Pending;
                }
                let t = s.buffered.take().unwrap();
                s.out.push(t);
            }
            Poll::Ready(Ok(()))
        })
    }
    fn start_send(mut self: Pin<&mut Self>, t: Tok) -> Result<(), u64> {
        self.enter(|s| {
            s.case.check(s.buffered.is_none(), || "start_send without readiness".into());
            s.buffered = Some(t);
            Ok(())
        })
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u64>> {
        if self.fail_flush {
            return Poll::Ready(Err(4));
        }
        self.as_mut().poll_ready(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u64>> {
        let r = self.as_mut().poll_ready(cx);
        if r.is_ready() {
            self.closed = true;
        }
        r
    }
}
impl AsyncRead for Duplex {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.enter(|s| {
            if s.evs.poll(s.rpos % 3, cx).is_pending() {
                return Poll::Pending;
            }
            let n = buf.len().min(s.rlen - s.rpos).min(3);
            for b in &mut buf[..n] {
                *b = s.rpos as u8;
                s.rpos += 1;
            }
            Poll::Ready(Ok(n))
        })
    }
}
impl AsyncWrite for Duplex {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.enter(|s| {
            if s.evs.poll(s.bytes.len() % 3, cx).is_pending() {
                return Poll::Pending;
            }
            let n = buf.len().min(2);
            s.bytes.extend(&buf[..n]);
            Poll::Ready(Ok(n))
        })
    }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
        self.enter(|s| {
            if s.evs.poll(s.bytes.len() % 3, cx).is_pending() {
                return Poll::Pending;
            }
            let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
            let n = all.len().min(3);
            s.bytes.extend(&all[..n]);
            s.vectored += 1;
            Poll::Ready(Ok(n))
        })
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.enter(|s| {
            if s.evs.poll((s.bytes.len() + 1) % 3, cx).is_pending() {
                return Poll::Pending;
            }
            s.flushed = s.bytes.len();
            Poll::Ready(Ok(()))
        })
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.enter(|s| {
            if s.evs.poll((s.bytes.len() + 2) % 3, cx).is_pending() {
                return Poll::Pending;
            }
            s.closed = true;
            Poll::Ready(Ok(()))
        })
    }
}

fn duplex(case: &Case, evs: &Evs) -> (Duplex, u64) {
    let n = case.len(5) as u64;
    let d = Duplex {
        case: case.clone(),
        evs: evs.clone(),
        seen_r: 0,
        inp: (0..n).map(|i| case.tok(i)).collect(),
        out: vec![],
        bytes: vec![],
        rpos: 0,
        rlen: case.len(12),
        buffered: None,
        closed: false,
        inside: false,
        fail_flush: false,
        flushed: 0,
        vectored: 0,
    };
    (d, n)
}

fn split_threads(case: &Case) {
    let evs = Evs::new();
    let (d, n) = duplex(case, &evs);
    let m = case.len(5) as u64;
    let (tx, rx) = StreamExt::split::<Tok>(d);
    let back: Arc<Mutex<(Option<_>, Option<_>)>> = Arc::new(Mutex::new((None, None)));
    case.check(tx.is_pair_of(&rx) && rx.is_pair_of(&tx), || "not a pair".into());
    let (b1, b2, e2) = (back.clone(), back.clone(), evs.clone());
    let toks: Vec<Tok> = (0..m).map(|i| case.tok(100 + i)).collect();
    par::run(
        case,
        vec![
            (
                "reader".into(),
                body(move |th| {
                    let mut rx = rx;
                    let mut i = 0;
                    while let Some(t) = th.block_on(rx.next()) {
                        th.check(t.v == i, || "item order".into());
                        i += 1;
                    }
                    th.check(i == n, || format!("{i} of {n} items"));
                    b1.lock().unwrap().0 = Some(rx);
                }),
            ),
            (
                "writer".into(),
                body(move |th| {
                    let mut tx = tx;
                    for t in toks {
                        if th.below(2) == 0 {
                            let r = th.block_on(tx.send(t));
                            th.check(r.is_ok(), || "send".into());
                        } else {
                            let r = th.block_on(tx.feed(t));
                            th.check(r.is_ok(), || "feed".into());
                        }
                    }
                    let r = if th.below(2) == 0 { th.block_on(tx.close()) } else { th.block_on(tx.flush()) };
                    th.check(r.is_ok(), || "flush/close".into());
                    b2.lock().unwrap().1 = Some(tx);
                }),
            ),
            (
                "events".into(),
                body(move |th| {
                    for _ in 0..3 {
                        th.point();
                        e2.fire();
                    }
                }),
            ),
        ],
    );
    let (rx, tx) = std::mem::take(&mut *back.lock().unwrap());
    let d = match rx.unwrap().reunite(tx.unwrap()) {
        Ok(d) => d,
        Err(_) => case.fail("reunite failed"),
    };
    case.eq(d.out.iter().map(|t| t.v).collect::<Vec<_>>(), (100..100 + m).collect::<Vec<_>>(), "items sent");
    if n >= 2 && m >= 2 {
        case.nontrivial();
    }
    case.label_if(d.seen_r > 0, "reader_waited");
    drop(d);
    evs.0.lock().unwrap().1.clear();
    case.no_leaks("split");
}

fn io_split_threads(case: &Case) {
    let evs = Evs::new();
    let (d, _) = duplex(case, &evs);
    let m = case.len(12);
    let n = d.rlen;
    let (rx, tx) = AsyncReadExt::split(d);
    case.check(tx.is_pair_of(&rx) && rx.is_pair_of(&tx), || "not a pair".into());
    let back: Arc<Mutex<(Option<_>, Option<_>)>> = Arc::new(Mutex::new((None, None)));
    let (b1, b2, e2) = (back.clone(), back.clone(), evs.clone());
    let how = Arc::new(Mutex::new((false, 0)));
    let b3 = how.clone();
    par::run(
        case,
        vec![
            (
                "reader".into(),
                body(move |th| {
                    let mut rx = rx;
                    let mut got: Vec<u8> = vec![];
                    loop {
                        let mut buf = [0u8; 4];
                        let k = 1 + th.below(4);
                        let r = if th.below(3) == 0 {
                            let (x, y) = buf.split_at_mut(k.min(2));
                            let mut v = [io::IoSliceMut::new(x), io::IoSliceMut::new(y)];
                            th.block_on(rx.read_vectored(&mut v)).unwrap()
                        } else {
                            th.block_on(rx.read(&mut buf[..k])).unwrap()
                        };
                        if r == 0 {
                            break;
                        }
                        got.extend(&buf[..r]);
                    }
                    th.check(got == (0..n as u8).collect::<Vec<_>>(), || format!("read {got:?}"));
                    b1.lock().unwrap().0 = Some(rx);
                }),
            ),
            (
                "writer".into(),
                body(move |th| {
                    let mut tx = tx;
                    let data: Vec<u8> = (0..m as u8).collect();
                    let (mut pos, mut vectored) = (0, 0);
                    while pos < data.len() {
                        match th.below(4) {
                            0 => {
                                let r = th.block_on(tx.write_all(&data[pos..]));
                                th.check(r.is_ok(), || "write_all".into());
                                pos = data.len();
                            }
                            1 => {
                                let cut = pos + 1 + th.below(data.len() - pos);
                                let v = [io::IoSlice::new(&data[pos..cut]), io::IoSlice::new(&data[cut..])];
                                pos += th.block_on(tx.write_vectored(&v)).unwrap();
                                vectored += 1;
                            }
                            2 => pos += th.block_on(tx.write(&data[pos..])).unwrap(),
                            _ => th.check(th.block_on(tx.flush()).is_ok(), || "flush".into()),
                        }
                    }
                    let close = th.below(2) == 0;
                    let r = if close { th.block_on(tx.close()) } else { th.block_on(tx.flush()) };
                    th.check(r.is_ok(), || "flush/close".into());
                    *b3.lock().unwrap() = (close, vectored);
                    b2.lock().unwrap().1 = Some(tx);
                }),
            ),
            (
                "events".into(),
                body(move |th| {
                    for _ in 0..3 {
                        th.point();
                        e2.fire();
                    }
                }),
            ),
        ],
    );
    let (rx, tx) = std::mem::take(&mut *back.lock().unwrap());
    let r = if case.bool() { rx.unwrap().reunite(tx.unwrap()) } else { tx.unwrap().reunite(rx.unwrap()) };
    let d = match r {
        Ok(d) => d,
        Err(_) => case.fail("reunite failed"),
    };
    case.eq(d.bytes.clone(), (0..m as u8).collect::<Vec<_>>(), "bytes written");
    let (close, vectored) = *how.lock().unwrap();
    case.eq(d.closed, close, "closed");
    case.check(close || d.flushed == m, || "not flushed".into());
    case.eq(d.vectored, vectored, "vectored writes");
    if n >= 2 && m >= 2 {
        case.nontrivial();
    }
    drop(d);
    evs.0.lock().unwrap().1.clear();
    case.no_leaks("io split");
}

/// Split halves in one task: histories of sink and stream operations, foreign
/// halves are refused and handed back intact.
fn split_seq(case: &Case) {
    let evs = Evs::new();
    for _ in 0..3 {
        evs.fire();
    }
    let (mut d1, n) = duplex(case, &evs);
    let (d2, _) = duplex(case, &evs);
    d1.fail_flush = case.chance(1, 6);
    let ff = d1.fail_flush;
    let (mut tx, mut rx) = StreamExt::split::<Tok>(d1);
    let (tx2, rx2) = StreamExt::split::<Tok>(d2);
    let mut p = Poller::new(case);
    let (mut got, mut sent) = (0u64, 0u64);
    let mut unflushed = false;
    let mut last_ready = false;
    for _ in 0..case.range(0, 12) {
        match case.below(5) {
            0 => match p.poll(|cx| rx.poll_next_unpin(cx)) {
                Poll::Ready(Some(t)) => {
                    case.eq(t.v, got, "item");
                    got += 1;
                }
                Poll::Ready(None) => case.eq(got, n, "end"),
                Poll::Pending => case.fail("pending although all is ready"),
            },
            1 | 2 => {
                let r = p.poll(|cx| Pin::new(&mut tx).poll_ready(cx));
                case.check(matches!(r, Poll::Ready(Ok(()))), || format!("poll_ready -> {r:?}"));
                last_ready = true;
                if case.bool() {
                    case.check(Pin::new(&mut tx).start_send(case.tok(100 + sent)).is_ok(), || "start_send".into());
                    sent += 1;
                    unflushed = true;
                    last_ready = false;
                }
            }
            3 => {
                let r = p.poll(|cx| Pin::new(&mut tx).poll_flush(cx));
                case.check(r == Poll::Ready(if ff { Err(4) } else { Ok(()) }), || format!("flush -> {r:?}"));
                unflushed = unflushed && ff;
            }
            _ => {
                let mut b = Poller::new(case);
                let _ = b.poll(|cx| Pin::new(&mut tx).poll_ready(cx));
            }
        }
    }
    let _ = last_ready;
    case.check(!tx.is_pair_of(&rx2) && !rx.is_pair_of(&tx2), || "foreign halves are a pair".into());
    if case.bool() {
        // refused: both come back, usable as before, nothing lost
        let e = match rx2.reunite(tx) {
            Ok(_) => case.fail("foreign halves were reunited"),
            Err(e) => e,
        };
        case.label_if(unflushed, "refused_with_item");
        tx = e.0;
    } else {
        drop(rx2);
    }
    drop(tx2);
    if !ff {
        let r = p.poll(|cx| Pin::new(&mut tx).poll_close(cx));
        case.check(matches!(r, Poll::Ready(Ok(()))), || "close".into());
        let d = match rx.reunite(tx) {
            Ok(d) => d,
            Err(_) => case.fail("reunite failed"),
        };
        case.check(d.closed, || "close did not reach the sink".into());
        case.eq(d.out.iter().map(|t| t.v).collect::<Vec<_>>(), (100..100 + sent).collect::<Vec<_>>(), "items sent");
        case.eq(d.inp.len() as u64, n - got, "items left");
        drop(d);
    } else {
        drop((tx, rx));
    }
    if got + sent >= 2 {
        case.nontrivial();
    }
    evs.0.lock().unwrap().1.clear();
    case.no_leaks("split");
}

#[allow(unused)]
fn unused(c: &Case) {
    let _ = (UnsafeCell::new(0), SStep::Item(0), future::ready(0));
    let w = World::new(c);
    drive(&mut Poller::new(c), &w, "", |_| Poll::Ready(()));
    let _ = Evs::new().fired();
}

fn main() {
    main_for(vec![
        Prop {
            id: "C16",
            rule: "threads: 2-3 handles of one shared future on controlled threads (awaiting, polling a few times and dropping, cloning, peeking, upgrading), events fired from another thread, sometimes a panic; seq: histories of clone/poll/drop/peek/downgrade/upgrade/event over one scripted future. Non-trivial: the inner future was polled more than once or two handles got the value (threads); >=2 handles and one result (seq).",
            subs: vec![
                sub("threads", shared_threads, 120_000, 3_000_000).miri(64, 2000),
                sub("seq", shared_seq, 2_500_000, 25_000_000).miri(32, 1000),
            ],
        },
        Prop {
            id: "C17",
            rule: "abort: an abortable future on one thread, up to 2 abort handles and an event source on others; abort_seq: histories of polls, events and aborts on abortable futures and streams; remote: a remote future on an executor thread against its handle (awaited, polled, dropped, forgotten), with panics and executors that drop it. Non-trivial: the inner future was polled (and an abort took place).",
            subs: vec![
                sub("abort", abort_threads, 100_000, 2_500_000).miri(64, 2000),
                sub("abort_seq", abort_seq, 1_500_000, 15_000_000).miri(32, 1000),
                sub("remote", remote_threads, 120_000, 2_500_000).miri(64, 2000),
            ],
        },
        Prop {
            id: "C18",
            rule: "threads: 2-4 controlled threads lock (borrowed, owned, mapped), try to lock and give up waiting; seq: histories of up to 40 operations over any number of waiters and one holder, with a local wake oracle. Non-trivial: a thread had to wait (threads) / two contended acquisitions (seq).",
            subs: vec![
                sub("threads", mutex_threads, 120_000, 3_000_000).miri(64, 2000),
                sub("mapped", mutex_map, 100_000, 1_000_000).miri(16, 300),
                sub("seq", mutex_seq, 1_800_000, 18_000_000).miri(32, 1000),
            ],
        },
        Prop {
            id: "C19",
            rule: "bilock: both halves lock, wait and give up on two controlled threads; split: reading and writing halves of a split stream+sink object and of a split reader+writer on two threads with an event source; split_seq: histories on the halves in one task, with refused and accepted reunions. Non-trivial: a half had to wait / >=2 items each way.",
            subs: vec![
                sub("bilock", bilock_threads, 100_000, 2_500_000).miri(48, 2000),
                sub("split", split_threads, 80_000, 2_000_000).miri(32, 1000),
                sub("io_split", io_split_threads, 60_000, 1_500_000).miri(32, 1000),
                sub("split_seq", split_seq, 1_000_000, 10_000_000).miri(16, 300),
            ],
        },
    ]);
}
