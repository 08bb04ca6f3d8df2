//! Joins, selects and sequential future combinators.
use futures::future::{self, Either, FusedFuture, Future, FutureExt, TryFutureExt};
use futures::stream::{self, StreamExt, TryStreamExt};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::collections::VecDeque;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};
use vh::case::{Case, Injected, Tok};
use vh::leaf::{gates, Gate, LFut, LStream, LeafSt};
use vh::runner::{main_for, sub, Prop};
use vh::sim::{drive, Ev, Poller, World};

type BF<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
type R = Result<Tok, Tok>;

enum End<T> {
    Done(T),
    Stopped,
    Panicked(u64),
}

/// Drives `poll` (strict wakeups); after every pending poll `on_pending` runs,
/// and when the task is idle all unfinished leaves must really be blocked.
fn run_conc<T>(
    world: &World,
    p: &mut Poller,
    what: &str,
    leaves: &[Arc<LeafSt>],
    stop: Option<usize>,
    mut poll: impl FnMut(&mut Context<'_>) -> Poll<T>,
    mut on_pending: impl FnMut(),
) -> End<T> {
    let case = world.case.clone();
    let mut polls = 0;
    loop {
        if stop == Some(polls) {
            return End::Stopped;
        }
        let w = world.waiting();
        let woken = p.woken();
        if woken && (w.is_empty() || !case.chance(1, 3)) || (!woken && !w.is_empty() && case.chance(1, 8)) {
            polls += 1;
            let r = catch_unwind(AssertUnwindSafe(|| p.poll(&mut poll)));
            match r {
                Err(e) => match e.downcast::<Injected>() {
                    Ok(i) => return End::Panicked(i.0),
                    Err(e) => resume_unwind(e),
                },
                Ok(Poll::Ready(t)) => return End::Done(t),
                Ok(Poll::Pending) => {
                    on_pending();
                    if !p.woken() {
                        for (i, st) in leaves.iter().enumerate() {
                            case.check(st.done() || (st.started() && st.blocked()), || {
                                format!("{what}: idle although future {i} can make progress")
                            });
                        }
                    }
                }
            }
        } else if !w.is_empty() {
            world.fire(w[case.below(w.len())]);
        } else {
            case.fail(format!("{what}: stalled, pending and never woken (lost wakeup)"));
        }
    }
}

fn stop_at(case: &Case) -> Option<usize> {
    if case.chance(1, 6) {
        Some(case.range(0, 4))
    } else {
        None
    }
}

// ------------------------------------------------------------------ C10 join

fn join_kind(case: &Case) -> (usize, usize) {
    let k = case.below(12);
    let n = match k {
        0 => 2,
        1 => 3,
        2 => 4,
        3 => 5,
        4 => 1,
        5 => 2,
        6 => 3,
        7 => 4,
        8 | 9 => case.len(6),
        10 => case.range(0, 8),
        _ => {
            if case.chance(1, 4) {
                case.range(29, 34) + if case.chance(1, 8) { 36 } else { 0 }
            } else {
                case.len(8)
            }
        }
    };
    (k, n)
}

const JOIN_NAMES: [&str; 12] = [
    "join", "join(3)", "join(4)", "join!(5)", "join!(1)", "join!(2)", "join!(3)", "join!(4)", "join_all(vec)",
    "join_all(collect)", "join_all(no upper bound)", "join_all(large)",
];

fn join_of(k: usize, fs: Vec<LFut<Tok>>) -> BF<'static, Vec<Tok>> {
    let mut it = fs.into_iter();
    macro_rules! n {
        () => {
            it.next().unwrap()
        };
    }
    match k {
        0 => {
            let f = future::join(n!(), n!());
            Box::pin(async move {
                let (a, b) = f.await;
                vec![a, b]
            })
        }
        1 => {
            // nested
            let f = future::join(future::join(n!(), n!()), n!());
            Box::pin(async move {
                let ((a, b), c) = f.await;
                vec![a, b, c]
            })
        }
        2 => {
            let f = future::join(future::join(n!(), n!()), future::join(n!(), n!()));
            Box::pin(async move {
                let ((a, b), (c, d)) = f.await;
                vec![a, b, c, d]
            })
        }
        3 => {
            let (a, b, c, d, e) = (n!(), n!(), n!(), n!(), n!());
            Box::pin(async move {
                let (a, b, c, d, e) = futures::join!(a, b, c, d, e);
                vec![a, b, c, d, e]
            })
        }
        4 => {
            let a = n!();
            Box::pin(async move { vec![futures::join!(a).0] })
        }
        5 => {
            let (a, b) = (n!(), n!());
            Box::pin(async move {
                let (a, b) = futures::join!(a, b);
                vec![a, b]
            })
        }
        6 => {
            let (a, b, c) = (n!(), n!(), n!());
            Box::pin(async move {
                let (a, b, c) = futures::join!(a, Box::pin(async move { b.await }), c,);
                vec![a, b, c]
            })
        }
        7 => {
            let (a, b, c, d) = (n!(), n!(), n!(), n!());
            Box::pin(async move {
                let (a, b, c, d) = futures::join!(a, b, c, d);
                vec![a, b, c, d]
            })
        }
        8 => Box::pin(future::join_all(it)),
        9 => Box::pin(it.collect::<future::JoinAll<_>>()),
        10 => Box::pin(future::join_all(std::iter::from_fn(move || it.next()))),
        _ => Box::pin(future::join_all(it)),
    }
}

fn mk_leaves(world: &World, n: usize) -> (Vec<LFut<Tok>>, Vec<Arc<LeafSt>>, bool) {
    let case = &world.case;
    let panics = n > 0 && case.chance(1, 12);
    let who = case.below(n.max(1));
    let fs: Vec<LFut<Tok>> = (0..n)
        .map(|i| {
            let g = gates(world);
            if panics && i == who {
                LFut::panicking(world, i.to_string(), g, i as u64)
            } else {
                LFut::new(world, i.to_string(), g, case.tok(i as u64))
            }
        })
        .collect();
    let st = fs.iter().map(|f| f.st.clone()).collect();
    (fs, st, panics)
}

fn joins(case: &Case) {
    let world = World::new(case);
    let (k, n) = join_kind(case);
    let what = JOIN_NAMES[k];
    let (fs, st, panics) = mk_leaves(&world, n);
    let gated = fs.iter().filter(|f| f.n_gates() > 0).count();
    let mut fut = join_of(k, fs);
    case.log(|| format!("{what} of {n}"));
    case.check(st.iter().all(|s| !s.started()), || format!("{what}: polled before the join was"));
    let mut p = Poller::new(case);
    let stop = stop_at(case);
    let end = run_conc(&world, &mut p, what, &st, stop, |cx| fut.as_mut().poll(cx), || {
        if n > 0 {
            case.check(st.iter().any(|s| !s.done()), || format!("{what}: pending although all futures completed"));
        }
    });
    match end {
        End::Done(v) => {
            case.check(!panics, || "completed although one future panicked".into());
            case.eq(v.iter().map(|t| t.v).collect::<Vec<_>>(), (0..n as u64).collect::<Vec<_>>(), what);
            case.check(st.iter().all(|s| s.done()), || "result before all completed".into());
            if gated >= 2 {
                case.nontrivial();
            }
        }
        End::Stopped => case.label("dropped_midway"),
        End::Panicked(_) => case.label("future_panicked"),
    }
    case.label(what);
    drop(fut);
    case.check(st.iter().all(|s| s.dropped()), || format!("{what}: a future outlives the join"));
    world.clear();
    case.no_leaks(what);
}

const TRY_NAMES: [&str; 12] = [
    "try_join", "try_join(3)", "try_join(4)", "try_join!(5)", "try_join!(1)", "try_join!(2)", "try_join!(3)", "try_join!(4)",
    "try_join_all(vec)", "try_join_all(collect)", "try_join_all(no upper bound)", "try_join_all(large)",
];

fn try_join_of(k: usize, fs: Vec<LFut<R>>) -> BF<'static, Result<Vec<Tok>, Tok>> {
    let mut it = fs.into_iter();
    macro_rules! n {
        () => {
            it.next().unwrap()
        };
    }
    match k {
        0 => {
            let f = future::try_join(n!(), n!());
            Box::pin(async move { f.await.map(|(a, b)| vec![a, b]) })
        }
        1 => {
            let f = future::try_join(future::try_join(n!(), n!()), n!());
            Box::pin(async move { f.await.map(|((a, b), c)| vec![a, b, c]) })
        }
        2 => {
            let f = future::try_join(n!(), future::try_join(n!(), future::try_join(n!(), n!())));
            Box::pin(async move { f.await.map(|(a, (b, (c, d)))| vec![a, b, c, d]) })
        }
        3 => {
            let (a, b, c, d, e) = (n!(), n!(), n!(), n!(), n!());
            Box::pin(async move { futures::try_join!(a, b, c, d, e).map(|(a, b, c, d, e)| vec![a, b, c, d, e]) })
        }
        4 => {
            let a = n!();
            Box::pin(async move { futures::try_join!(a).map(|(a,)| vec![a]) })
        }
        5 => {
            let (a, b) = (n!(), n!());
            Box::pin(async move { futures::try_join!(a, b).map(|(a, b)| vec![a, b]) })
        }
        6 => {
            let (a, b, c) = (n!(), n!(), n!());
            Box::pin(async move { futures::try_join!(a, async move { b.await }, c,).map(|(a, b, c)| vec![a, b, c]) })
        }
        7 => {
            let (a, b, c, d) = (n!(), n!(), n!(), n!());
            Box::pin(async move { futures::try_join!(a, b, c, d).map(|(a, b, c, d)| vec![a, b, c, d]) })
        }
        8 => Box::pin(future::try_join_all(it)),
        9 => Box::pin(it.collect::<future::TryJoinAll<_>>()),
        10 => Box::pin(future::try_join_all(std::iter::from_fn(move || it.next()))),
        _ => Box::pin(future::try_join_all(it)),
    }
}

fn try_joins(case: &Case) {
    let world = World::new(case);
    let (k, n) = join_kind(case);
    let what = TRY_NAMES[k];
    let err_rate = *case.pick(&[0usize, 1, 3]);
    let errs: Vec<bool> = (0..n).map(|_| err_rate > 0 && case.chance(err_rate, 8)).collect();
    let fs: Vec<LFut<R>> = (0..n)
        .map(|i| {
            let t = case.tok(i as u64);
            LFut::gen(&world, i.to_string(), if errs[i] { Err(t) } else { Ok(t) })
        })
        .collect();
    let st: Vec<Arc<LeafSt>> = fs.iter().map(|f| f.st.clone()).collect();
    let gated = fs.iter().filter(|f| f.n_gates() > 0).count();
    let mut fut = try_join_of(k, fs);
    case.log(|| format!("{what} of {n}, errors {errs:?}"));
    let mut p = Poller::new(case);
    let stop = stop_at(case);
    let end = run_conc(&world, &mut p, what, &st, stop, |cx| fut.as_mut().poll(cx), || {
        for i in 0..n {
            case.check(!(errs[i] && st[i].done()), || format!("{what}: future {i} failed, but the join did not end at once"));
        }
        if n > 0 {
            case.check(st.iter().any(|s| !s.done()), || format!("{what}: pending although all completed"));
        }
    });
    match end {
        End::Done(Ok(v)) => {
            case.check(!errs.iter().any(|e| *e), || format!("{what}: success although one failed"));
            case.eq(v.iter().map(|t| t.v).collect::<Vec<_>>(), (0..n as u64).collect::<Vec<_>>(), what);
            case.label("ok");
            if gated >= 2 {
                case.nontrivial();
            }
        }
        End::Done(Err(e)) => {
            let i = e.v as usize;
            case.check(errs[i] && st[i].done(), || format!("{what}: error of a future that did not fail"));
            // The first failure ends it, so no other failure was observed before.
            for j in 0..n {
                case.check(j == i || !(errs[j] && st[j].done() && st[j].done_at() < st[i].done_at()), || {
                    format!("{what}: error of {i}, but {j} failed first")
                });
            }
            case.label("err");
            if gated >= 1 && n >= 2 {
                case.nontrivial();
            }
        }
        _ => {}
    }
    case.label(what);
    drop(fut);
    case.check(st.iter().all(|s| s.dropped()), || format!("{what}: a future outlives the join"));
    world.clear();
    case.no_leaks(what);
}

/// maybe_done / try_maybe_done.
fn maybe(case: &Case) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    let fail = case.bool();
    if case.bool() {
        let f = LFut::gen(&world, "f", case.tok(7));
        let st = f.st.clone();
        let mut m = Box::pin(future::maybe_done(f));
        case.check(m.as_mut().output_mut().is_none() && m.as_mut().take_output().is_none(), || "output before it is there".into());
        case.check(!m.is_terminated(), || "terminated at start".into());
        loop {
            let r = run_conc(&world, &mut p, "maybe_done", &[st.clone()], None, |cx| m.as_mut().poll(cx), || {});
            let End::Done(()) = r else { unreachable!() };
            break;
        }
        // Polling a done one again is allowed until the output is taken.
        for _ in 0..case.below(3) {
            let again = p.poll(|cx| m.as_mut().poll(cx));
            case.check(again.is_ready(), || "pending after done".into());
        }
        case.check(m.is_terminated(), || "not terminated when done".into());
        case.eq(m.as_mut().output_mut().map(|t| t.v), Some(7), "output_mut");
        if case.bool() {
            case.eq(m.as_mut().take_output().map(|t| t.v), Some(7), "take_output");
            case.check(m.as_mut().take_output().is_none() && m.as_mut().output_mut().is_none(), || "output taken twice".into());
            case.check(m.is_terminated(), || "not terminated when gone".into());
        }
    } else {
        let out = if fail { Err(case.tok(8)) } else { Ok(case.tok(7)) };
        let f = LFut::gen(&world, "f", out);
        let st = f.st.clone();
        let mut m = Box::pin(future::try_maybe_done(f));
        case.check(m.as_mut().take_output().is_none(), || "output before it is there".into());
        let r = run_conc(&world, &mut p, "try_maybe_done", &[st.clone()], None, |cx| m.as_mut().poll(cx), || {});
        let End::Done(r) = r else { unreachable!() };
        case.eq(r.as_ref().err().map(|t| t.v), if fail { Some(8) } else { None }, "try_maybe_done result");
        case.check(m.is_terminated(), || "not terminated".into());
        if !fail {
            for _ in 0..case.below(3) {
                let again = p.poll(|cx| m.as_mut().poll(cx));
                case.check(matches!(again, Poll::Ready(Ok(()))), || "not Ok after done".into());
            }
            case.eq(m.as_mut().output_mut().map(|t| t.v), Some(7), "output_mut");
            case.eq(m.as_mut().take_output().map(|t| t.v), Some(7), "take_output");
        }
        case.check(m.as_mut().take_output().is_none() && m.as_mut().output_mut().is_none(), || "output taken twice".into());
        case.check(m.is_terminated(), || "not terminated when gone".into());
    }
    case.nontrivial();
    world.clear();
    case.no_leaks("maybe_done");
}

// ------------------------------------------------------------------ C11 select

fn select2(case: &Case) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    let mk = |i: u64, e: bool| {
        let t = case.tok(i);
        LFut::gen(&world, i.to_string(), if e { Err(t) } else { Ok(t) })
    };
    let errs = [case.bool(), case.bool()];
    let (a, b) = (mk(0, errs[0]), mk(1, errs[1]));
    let st = [a.st.clone(), b.st.clone()];
    let gated = a.n_gates().min(b.n_gates()) > 0;
    let (a, b) = (Box::pin(a), Box::pin(b));
    let tried = case.bool();
    let what = if tried { "try_select" } else { "select" };
    let stop = stop_at(case);
    let none_done = || case.check(!st[0].done() && !st[1].done(), || format!("{what}: pending although one completed"));
    // (winner, value, ok, other)
    let won: Option<(usize, R, Pin<Box<LFut<R>>>)>;
    if tried {
        let mut f = future::try_select(a, b);
        won = match run_conc(&world, &mut p, what, &st, stop, |cx| f.poll_unpin(cx), none_done) {
            End::Done(Ok(Either::Left((v, o)))) => Some((0, Ok(v), o)),
            End::Done(Ok(Either::Right((v, o)))) => Some((1, Ok(v), o)),
            End::Done(Err(Either::Left((v, o)))) => Some((0, Err(v), o)),
            End::Done(Err(Either::Right((v, o)))) => Some((1, Err(v), o)),
            _ => None,
        };
    } else {
        let mut f = future::select(a, b);
        case.check(!f.is_terminated(), || "terminated at start".into());
        won = match run_conc(&world, &mut p, what, &st, stop, |cx| f.poll_unpin(cx), none_done) {
            End::Done(Either::Left((v, o))) => Some((0, v, o)),
            End::Done(Either::Right((v, o))) => Some((1, v, o)),
            _ => None,
        };
        case.eq(f.is_terminated(), won.is_some(), "is_terminated");
    }
    if let Some((w, v, mut other)) = won {
        case.log(|| format!("{what}: {w} won with {v:?}"));
        let id = match &v {
            Ok(t) | Err(t) => t.v,
        };
        case.eq(id as usize, w, "value of the winner");
        case.eq(v.is_err(), errs[w], "kind of result");
        case.check(st[w].done(), || "winner has not completed".into());
        case.check(!st[1 - w].done() && !st[1 - w].dropped(), || format!("{what}: the loser completed or was dropped"));
        if case.bool() {
            let v = drive(&mut p, &world, "the other future", |cx| other.as_mut().poll(cx));
            let id = match &v {
                Ok(t) | Err(t) => t.v,
            };
            case.eq(id as usize, 1 - w, "value of the other future");
            if gated {
                case.nontrivial();
            }
        }
    }
    case.check(st[0].dropped() && st[1].dropped(), || "a future outlives the select".into());
    world.clear();
    case.no_leaks(what);
}

fn select_many(case: &Case) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    let n = case.big(1, 6, 40);
    let errs: Vec<bool> = (0..n).map(|_| case.chance(5, 8)).collect();
    let mut ids: Vec<usize> = (0..n).collect();
    let mut fs: Vec<Pin<Box<LFut<R>>>> = (0..n)
        .map(|i| {
            let t = case.tok(i as u64);
            Box::pin(LFut::gen(&world, i.to_string(), if errs[i] { Err(t) } else { Ok(t) }))
        })
        .collect();
    let st: Vec<Arc<LeafSt>> = fs.iter().map(|f| f.st.clone()).collect();
    let gated = fs.iter().filter(|f| f.n_gates() > 0).count();
    let ok_kind = case.bool();
    let what = if ok_kind { "select_ok" } else { "select_all" };
    case.label(what);
    let mut rounds = 0;
    while !fs.is_empty() {
        rounds += 1;
        let leaves: Vec<_> = ids.iter().map(|i| st[*i].clone()).collect();
        let stop = stop_at(case);
        if ok_kind {
            let mut f = if case.bool() { future::select_ok(fs) } else { fs.into_iter().collect::<future::SelectOk<_>>() };
            let end = run_conc(&world, &mut p, what, &leaves, stop, |cx| f.poll_unpin(cx), || {
                for i in &ids {
                    case.check(!st[*i].done() || errs[*i], || format!("select_ok: pending although {i} succeeded"));
                }
                case.check(ids.iter().any(|i| !st[*i].done()), || "select_ok: pending although all failed".into());
            });
            match end {
                End::Done(Ok((v, rest))) => {
                    let i = v.v as usize;
                    case.log(|| format!("select_ok: {i} of {ids:?}"));
                    case.check(ids.contains(&i) && !errs[i] && st[i].done(), || "value of a future that did not succeed".into());
                    let names: BTreeSet<usize> = rest.iter().map(|f| f.name.parse().unwrap()).collect();
                    case.eq(names.len(), rest.len(), "remaining futures distinct");
                    let want: BTreeSet<usize> = ids.iter().copied().filter(|j| *j != i && !st[*j].done()).collect();
                    case.eq(&names, &want, "select_ok: remaining futures are those not completed");
                    ids = rest.iter().map(|f| f.name.parse().unwrap()).collect();
                    fs = rest;
                }
                End::Done(Err(e)) => {
                    let i = e.v as usize;
                    case.check(ids.iter().all(|j| errs[*j] && st[*j].done()), || "error although not all failed".into());
                    case.check(ids.iter().all(|j| st[*j].done_at() <= st[i].done_at()), || "not the last failure".into());
                    case.label("all_failed");
                    fs = vec![];
                    ids.clear();
                }
                _ => {
                    fs = vec![];
                }
            }
        } else {
            let mut f = if case.bool() { future::select_all(fs) } else { fs.into_iter().collect::<future::SelectAll<_>>() };
            let end = run_conc(&world, &mut p, what, &leaves, stop, |cx| f.poll_unpin(cx), || {
                case.check(ids.iter().all(|i| !st[*i].done()), || "select_all: pending although one completed".into());
            });
            match end {
                End::Done((v, idx, rest)) => {
                    let i = match &v {
                        Ok(t) | Err(t) => t.v as usize,
                    };
                    case.log(|| format!("select_all: {i} at {idx} of {ids:?}"));
                    case.eq(ids[idx], i, "select_all: index of the completed future");
                    case.check(st[i].done(), || "winner has not completed".into());
                    let names: BTreeSet<usize> = rest.iter().map(|f| f.name.parse().unwrap()).collect();
                    let want: BTreeSet<usize> = ids.iter().copied().filter(|j| *j != i).collect();
                    case.eq(rest.len(), ids.len() - 1, "number of remaining futures");
                    case.eq(&names, &want, "select_all: remaining futures");
                    case.check(want.iter().all(|j| !st[*j].done() && !st[*j].dropped()), || "a loser completed or was dropped".into());
                    ids = rest.iter().map(|f| f.name.parse().unwrap()).collect();
                    fs = rest;
                }
                End::Stopped => {
                    let rest = f.into_inner();
                    case.eq(rest.len(), ids.len(), "into_inner gives all back");
                    ids = rest.iter().map(|f| f.name.parse().unwrap()).collect();
                    fs = if case.bool() { rest } else { vec![] };
                }
                End::Panicked(_) => unreachable!(),
            }
        }
    }
    if rounds >= 1 && gated >= 2 {
        case.nontrivial();
    }
    case.check(st.iter().all(|s| s.dropped()), || "a future outlives the select".into());
    world.clear();
    case.no_leaks(what);
}

struct Br {
    st: Arc<LeafSt>,
    ev: Option<Ev>,
}
impl Br {
    fn ready(&self) -> bool {
        !self.st.done() && self.ev.as_ref().map_or(true, |e| e.fired())
    }
}

fn macros(case: &Case) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    let n = case.range(2, 4);
    let mut fs: VecDeque<Pin<Box<LFut<Tok>>>> = VecDeque::new();
    let mut brs = vec![];
    for i in 0..4u64 {
        let ev = if case.chance(2, 3) { Some(world.event("branch")) } else { None };
        let g: VecDeque<Gate> = ev.iter().cloned().map(Gate::Wait).collect();
        let f = LFut::new(&world, i.to_string(), g, case.tok(i));
        brs.push(Br { st: f.st.clone(), ev });
        fs.push_back(Box::pin(f));
    }
    brs.truncate(n);
    let kind = case.below(6);
    let what = ["select!", "select_biased!", "select! default", "select_biased! default", "select! expr", "select_biased! expr"][kind];
    case.label(what);
    let biased = kind % 2 == 1;
    let got = RefCell::new(vec![]);
    let took = |i: usize, t: Tok, before: &[bool]| {
        case.log(|| format!("branch {i} -> {t:?}"));
        case.eq(t.v as usize, i, "value of the branch");
        case.check(brs[i].st.done(), || "branch of an unfinished future".into());
        if biased {
            for j in 0..i {
                case.check(!brs[j].ready(), || format!("{what}: branch {i} taken although {j}, declared earlier, is ready"));
            }
        }
        // Exactly one more completed.
        let newly = (0..n).filter(|j| brs[*j].st.done() && !before[*j]).count();
        case.eq(newly, 1, "futures completed by one select");
        got.borrow_mut().push(i);
    };
    let snap = || brs.iter().map(|b| b.st.done()).collect::<Vec<bool>>();
    let complete = || {
        case.check(brs.iter().all(|b| b.st.done()), || format!("{what}: complete branch before all completed"));
        case.eq(got.borrow().len(), n, "branches taken");
    };
    let default = || {
        case.label("default_taken");
        case.check(brs.iter().any(|b| !b.st.done()), || "default although all are complete".into());
        case.check(brs.iter().all(|b| !b.ready()), || format!("{what}: default although a future is ready"));
        world.fire_some();
    };
    let mut a = fs.pop_front().unwrap();
    let mut b = fs.pop_front().unwrap();
    let mut c = fs.pop_front().unwrap();
    let mut d = fs.pop_front().unwrap();
    let (took, snap, complete, default) = (&took, &snap, &complete, &default);
    macro_rules! run {
        ($mac:ident, 2, $($extra:tt)*) => { Box::pin(async move { loop { let s = snap(); futures::$mac! {
            x = a => took(0, x, &s), x = b => took(1, x, &s), complete => break, $($extra)* } }
            complete() }) };
        ($mac:ident, 3, $($extra:tt)*) => { Box::pin(async move { loop { let s = snap(); futures::$mac! {
            x = a => { took(0, x, &s) } x = b => took(1, x, &s), x = c => took(2, x, &s), complete => break, $($extra)* } }
            complete() }) };
        ($mac:ident, 4, $($extra:tt)*) => { Box::pin(async move { loop { let s = snap(); futures::$mac! {
            complete => break, x = a => took(0, x, &s), x = b => took(1, x, &s), $($extra)* x = c => took(2, x, &s), x = d => took(3, x, &s) } }
            complete() }) };
    }
    macro_rules! run_expr {
        ($mac:ident) => { Box::pin(async move { loop { let s = snap(); futures::$mac! {
            x = &mut a => took(0, x, &s), x = Box::pin(&mut b) => took(1, x, &s), x = { &mut c } => took(2, x, &s), complete => break } }
            complete() }) };
    }
    let st: Vec<_> = brs.iter().map(|b| b.st.clone()).collect();
    let mut fut: BF<'_, ()> = match (kind, n) {
        (0, 2) => run!(select, 2,),
        (0, 3) => run!(select, 3,),
        (0, _) => run!(select, 4,),
        (1, 2) => run!(select_biased, 2,),
        (1, 3) => run!(select_biased, 3,),
        (1, _) => run!(select_biased, 4,),
        (2, 2) => run!(select, 2, default => default(),),
        (2, 3) => run!(select, 3, default => default(),),
        (2, _) => run!(select, 4, default => default(),),
        (3, 2) => run!(select_biased, 2, default => default(),),
        (3, 3) => run!(select_biased, 3, default => default(),),
        (3, _) => run!(select_biased, 4, default => default(),),
        (4, 3) => run_expr!(select),
        (5, 3) => run_expr!(select_biased),
        (4, 2) => run!(select, 2,),
        (4, _) => run!(select, 4,),
        (5, 2) => run!(select_biased, 2,),
        _ => run!(select_biased, 4,),
    };
    let end = run_conc(&world, &mut p, what, &st, stop_at(case), |cx| fut.as_mut().poll(cx), || {});
    if let End::Done(()) = end {
        let mut g = got.borrow().clone();
        g.sort();
        case.eq(g, (0..n).collect::<Vec<_>>(), "every branch taken once");
        if brs.iter().filter(|b| b.ev.is_some()).count() >= 1 {
            case.nontrivial();
        }
    }
    drop(fut);
    world.clear();
}

/// Streams and futures in one select loop.
fn macro_streams(case: &Case) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    let (n1, n2) = (case.len(4), case.len(4));
    let mut s1 = Box::pin(LStream::gen(&world, "s1", (0..n1 as u64).map(|i| case.tok(i))));
    let mut s2 = Box::pin(LStream::gen(&world, "s2", (0..n2 as u64).map(|i| case.tok(100 + i))));
    let mut f = Box::pin(LFut::gen(&world, "f", case.tok(500)));
    let st = [s1.st.clone(), s2.st.clone(), f.st.clone()];
    let got = RefCell::new(vec![]);
    let ends = std::cell::Cell::new(0);
    let (gp, ep) = (&got, &ends);
    let biased = case.bool();
    let mut fut: BF<'_, ()> = if biased {
        Box::pin(async move {
            loop {
                futures::select_biased! {
                    t = s1.select_next_some() => gp.borrow_mut().push(t.v),
                    t = s2.next() => match t { Some(t) => gp.borrow_mut().push(t.v), None => ep.set(ep.get() + 1) },
                    t = f => gp.borrow_mut().push(t.v),
                    complete => break,
                }
            }
        })
    } else {
        Box::pin(async move {
            loop {
                futures::select! {
                    t = s1.select_next_some() => gp.borrow_mut().push(t.v),
                    t = s2.next() => match t { Some(t) => gp.borrow_mut().push(t.v), None => ep.set(ep.get() + 1) },
                    t = f => gp.borrow_mut().push(t.v),
                    complete => break,
                }
            }
        })
    };
    if let End::Done(()) = run_conc(&world, &mut p, "select! over streams", &[], stop_at(case), |cx| fut.as_mut().poll(cx), || {}) {
        let g = got.borrow();
        let of = |lo: u64, hi: u64| g.iter().copied().filter(|v| *v >= lo && *v < hi).collect::<Vec<_>>();
        case.eq(of(0, 100), (0..n1 as u64).collect::<Vec<_>>(), "items of the first stream");
        case.eq(of(100, 200), (0..n2 as u64).map(|i| 100 + i).collect::<Vec<_>>(), "items of the second stream");
        case.eq(of(500, 501), vec![500], "the future");
        case.eq(ends.get(), 1, "ends seen of the second stream");
        case.check(st.iter().all(|s| s.done()), || "complete before all ended".into());
        if n1 + n2 >= 2 {
            case.nontrivial();
        }
    }
    drop(fut);
    world.clear();
    case.no_leaks("select! over streams");
}

/// Every ready branch of select! gets its turn.
fn macro_fair(case: &Case) {
    let mut p = Poller::new(case);
    let n = case.range(2, 3);
    let mut wins = [0u32; 3];
    for _ in 0..150 {
        let (mut a, mut b, mut c) = (future::ready(0usize), future::ready(1usize), future::ready(2usize));
        let mut f: BF<'_, usize> = if n == 2 {
            Box::pin(async { futures::select! { x = a => x, x = b => x } })
        } else {
            Box::pin(async { futures::select! { x = a => x, x = b => x, x = c => x } })
        };
        match p.poll(|cx| f.as_mut().poll(cx)) {
            Poll::Ready(i) => wins[i] += 1,
            Poll::Pending => case.fail("select! of ready futures is pending"),
        }
    }
    case.check(wins[..n].iter().all(|w| *w > 0), || format!("select!: a branch that is always ready never ran in 150 rounds: {wins:?}"));
    case.nontrivial();
}

// ------------------------------------------------------------------ C29 sequential combinators

#[derive(Clone)]
struct Tr {
    case: Case,
    got: Rc<RefCell<Vec<(u32, u64)>>>,
}

impl Tr {
    fn hit(&self, id: u32, v: u64) {
        self.case.log(|| format!("closure {id} called with {v}"));
        self.got.borrow_mut().push((id, v));
    }
}

struct Gen<'w> {
    world: &'w World,
    tr: Tr,
    want: Vec<(u32, u64)>,
    next: u32,
    leaves: Vec<Arc<LeafSt>>,
}

#[derive(Debug)]
struct Into2(Tok);
impl From<Tok> for Into2 {
    fn from(t: Tok) -> Self {
        Into2(t)
    }
}

fn val(r: &R) -> u64 {
    match r {
        Ok(t) => t.v,
        Err(t) => t.v + 1_000_000,
    }
}
fn key(r: &Result<u64, u64>) -> u64 {
    match r {
        Ok(t) => *t,
        Err(t) => *t + 1_000_000,
    }
}

impl<'w> Gen<'w> {
    fn id(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn leaf(&mut self) -> (BF<'static, R>, Result<u64, u64>) {
        let case = &self.world.case;
        let v = 1 + case.below(50) as u64;
        let e = case.chance(1, 3);
        let m = if e { Err(v) } else { Ok(v) };
        let t = case.tok(v);
        let r: R = if e { Err(t) } else { Ok(t) };
        let f: BF<'static, R> = match case.below(6) {
            0 => Box::pin(future::ready(r)),
            1 => match r {
                Ok(t) => Box::pin(future::ok(t)),
                Err(t) => Box::pin(future::err(t)),
            },
            2 => {
                let id = self.id();
                self.want.push((id, v));
                let tr = self.tr.clone();
                Box::pin(future::lazy(move |_| {
                    tr.hit(id, v);
                    r
                }))
            }
            _ => {
                let f = LFut::gen(self.world, format!("leaf{}", self.next), r);
                self.leaves.push(f.st.clone());
                Box::pin(f)
            }
        };
        (f, m)
    }
    /// One combinator around `f`; returns the new future and its model.
    fn wrap(&mut self, f: BF<'static, R>, m: Result<u64, u64>, depth: usize) -> (BF<'static, R>, Result<u64, u64>) {
        let case = self.world.case.clone();
        let id = self.id();
        let tr = self.tr.clone();
        let k = case.below(34);
        case.log(|| format!("wrap {k} as {id}, model {m:?}"));
        let bump = |r: R, d: u64| -> R {
            match r {
                Ok(t) => {
                    let c = t.case().clone();
                    Ok(c.tok(t.v + d))
                }
                Err(t) => {
                    let c = t.case().clone();
                    Err(c.tok(t.v + d))
                }
            }
        };
        let bm = |m: Result<u64, u64>, d: u64| match m {
            Ok(v) => Ok(v + d),
            Err(v) => Err(v + d),
        };
        match k {
            0 => {
                self.want.push((id, key(&m)));
                (Box::pin(f.map(move |r| { tr.hit(id, val(&r)); bump(r, 1) })), bm(m, 1))
            }
            1 => (Box::pin(f.map_into::<Result<Tok, Tok>>()), m),
            2 => {
                self.want.push((id, key(&m)));
                let (g, gm) = self.sub(depth);
                let out = bm(gm, key(&m) % 7);
                let add = key(&m) % 7;
                (Box::pin(f.then(move |r| { tr.hit(id, val(&r)); async move { bump(g.await, add) } })), out)
            }
            3 => {
                let e: Either<_, future::Ready<R>> = f.left_future();
                (Box::pin(e), m)
            }
            4 => {
                let e: Either<future::Ready<R>, _> = f.right_future();
                (Box::pin(e), m)
            }
            5 => (Box::pin(async move {
                let mut s = f.into_stream();
                let r = s.next().await.expect("one item");
                assert!(s.next().await.is_none(), "into_stream gives more than one item");
                r
            }), m),
            6 => {
                let (g, gm) = self.sub(depth);
                let out = bm(gm, key(&m) % 5);
                let add = key(&m) % 5;
                // a future giving a future
                let ff = async move { let r = f.await; let _ = r; Box::pin(async move { bump(g.await, add) }) as BF<'static, R> };
                (Box::pin(ff.flatten()), out)
            }
            7 => {
                let fs = async move { let r = f.await; stream::iter(vec![r, Ok(case.tok(3))]) }.boxed_local().flatten_stream();
                (Box::pin(async move {
                    let v: Vec<R> = fs.collect().await;
                    let mut it = v.into_iter();
                    let first = it.next().unwrap();
                    assert_eq!(it.len(), 1, "flatten_stream length");
                    first
                }), m)
            }
            8 => (Box::pin(f.fuse()), m),
            9 => {
                self.want.push((id, key(&m)));
                (Box::pin(f.inspect(move |r| tr.hit(id, val(r)))), m)
            }
            10 => (Box::pin(async move { AssertUnwindSafe(f).catch_unwind().await.expect("no panic") }), m),
            11 => {
                // Shared, read by two handles one after the other.
                let s = f.shared();
                let s2 = s.clone();
                (Box::pin(async move {
                    let a = s.await;
                    let b = s2.await;
                    assert_eq!(a.is_ok(), b.is_ok());
                    assert_eq!(val(&a), val(&b), "two handles of a shared future");
                    a
                }), m)
            }
            12 => (Box::pin(f.boxed_local()), m),
            13 => (Box::pin(async move { f.unit_error().await.unwrap() }), m),
            14 => (Box::pin(async move { match f.never_error().await { Ok(r) => r, Err(n) => match n {} } }), m),
            15 => {
                let out = match m {
                    Ok(v) => { self.want.push((id, v)); Ok(v + 2) }
                    e => e,
                };
                let c = case.clone();
                (Box::pin(f.map_ok(move |t| { tr.hit(id, t.v); c.tok(t.v + 2) })), out)
            }
            16 => {
                self.want.push((id, key(&m)));
                let tr2 = tr.clone();
                let out = match m { Ok(v) => Err(v), Err(v) => Ok(v) };
                (Box::pin(f.map_ok_or_else(move |e| { tr.hit(id, e.v + 1_000_000); Ok(e) }, move |t| { tr2.hit(id, t.v); Err(t) })), out)
            }
            17 => {
                let out = match m {
                    Err(v) => { self.want.push((id, v)); Err(v + 3) }
                    o => o,
                };
                let c = case.clone();
                (Box::pin(f.map_err(move |t| { tr.hit(id, t.v); c.tok(t.v + 3) })), out)
            }
            18 => (Box::pin(async move { f.err_into::<Into2>().await.map_err(|e| e.0) }), m),
            19 => (Box::pin(async move { f.ok_into::<Into2>().await.map(|e| e.0) }), m),
            20 => match m {
                Ok(v) => {
                    self.want.push((id, v));
                    let (g, gm) = self.sub(depth);
                    (Box::pin(f.and_then(move |t| { tr.hit(id, t.v); g })), gm)
                }
                Err(v) => {
                    // Its continuation must never run.
                    let (g, st) = self.dead();
                    (Box::pin(async move { let r = f.and_then(move |t| { tr.hit(id, t.v); g }).await; assert!(!st.started(), "and_then ran its continuation after an error"); r }), Err(v))
                }
            },
            21 => match m {
                Err(v) => {
                    self.want.push((id, v));
                    let (g, gm) = self.sub(depth);
                    (Box::pin(f.or_else(move |t| { tr.hit(id, t.v); g })), gm)
                }
                Ok(v) => {
                    let (g, st) = self.dead();
                    (Box::pin(async move { let r = f.or_else(move |t| { tr.hit(id, t.v); g }).await; assert!(!st.started(), "or_else ran its continuation after success"); r }), Ok(v))
                }
            },
            22 => {
                if let Ok(v) = m { self.want.push((id, v)) }
                (Box::pin(f.inspect_ok(move |t| tr.hit(id, t.v))), m)
            }
            23 => {
                if let Err(v) = m { self.want.push((id, v)) }
                (Box::pin(f.inspect_err(move |t| tr.hit(id, t.v))), m)
            }
            24 => match m {
                Ok(_) => {
                    let (g, gm) = self.sub(depth);
                    let ff = f.map_ok(move |_| g);
                    (Box::pin(ff.try_flatten()), gm)
                }
                Err(v) => {
                    let (g, st) = self.dead();
                    let ff = f.map_ok(move |_| g);
                    (Box::pin(async move { let r = ff.try_flatten().await; assert!(!st.started(), "try_flatten ran after an error"); r }), Err(v))
                }
            },
            25 => {
                let out = m;
                let c = case.clone();
                let ts = f.map_ok(move |t| stream::iter(vec![Ok(t), Ok(c.tok(9))])).try_flatten_stream();
                (Box::pin(async move {
                    match ts.try_collect::<Vec<Tok>>().await {
                        Ok(v) => {
                            assert_eq!(v.len(), 2, "try_flatten_stream length");
                            Ok(v.into_iter().next().unwrap())
                        }
                        Err(e) => Err(e),
                    }
                }), out)
            }
            26 => {
                let out = match m {
                    Err(v) => { self.want.push((id, v)); Ok(v + 4) }
                    o => o,
                };
                let c = case.clone();
                (Box::pin(async move { Ok(f.unwrap_or_else(move |t| { tr.hit(id, t.v); c.tok(t.v + 4) }).await) }), out)
            }
            27 => (Box::pin(TryFutureExt::into_future(f)), m),
            28 => {
                let some = case.chance(3, 4);
                if some {
                    let o: future::OptionFuture<_> = Some(f).into();
                    (Box::pin(async move { o.await.expect("OptionFuture of Some") }), m)
                } else {
                    let o: future::OptionFuture<future::Ready<u8>> = None.into();
                    (Box::pin(async move { assert!(o.await.is_none(), "OptionFuture of None"); f.await }), m)
                }
            }
            29 => {
                // As a stream: pending markers, then the value, then the end.
                let mut s = Box::pin(stream::StreamExt::fuse(future::poll_immediate(f)));
                (Box::pin(future::poll_fn(move |cx| {
                    match s.as_mut().poll_next_unpin(cx) {
                        Poll::Ready(Some(x)) => x,
                        x => panic!("poll_immediate stream gave {:?}", x.map(|y| y.map(|_| ()))),
                    }
                })), m)
            }
            30 => {
                let mut md = Box::pin(future::maybe_done(f));
                (Box::pin(async move { md.as_mut().await; md.as_mut().take_output().unwrap() }), m)
            }
            31 => {
                let mut md = Box::pin(future::try_maybe_done(f));
                (Box::pin(async move { match md.as_mut().await { Ok(()) => Ok(md.as_mut().take_output().unwrap()), Err(e) => Err(e) } }), m)
            }
            32 => {
                let (ab, h) = future::abortable(f);
                (Box::pin(async move { let r = ab.await.expect("not aborted"); assert!(!h.is_aborted()); r }), m)
            }
            _ => {
                let mut f = f;
                (Box::pin(future::poll_fn(move |cx| f.poll_unpin(cx))), m)
            }
        }
    }
    /// A future which must never be polled.
    fn dead(&mut self) -> (BF<'static, R>, Arc<LeafSt>) {
        let f = LFut::new(self.world, "dead", VecDeque::new(), Ok(self.world.case.tok(0)));
        let st = f.st.clone();
        (Box::pin(f), st)
    }
    fn sub(&mut self, depth: usize) -> (BF<'static, R>, Result<u64, u64>) {
        self.expr(depth.saturating_sub(1))
    }
    fn expr(&mut self, depth: usize) -> (BF<'static, R>, Result<u64, u64>) {
        let (mut f, mut m) = self.leaf();
        if depth > 0 {
            for _ in 0..self.world.case.below(4) {
                (f, m) = self.wrap(f, m, depth);
            }
        }
        (f, m)
    }
}

fn pipeline(case: &Case) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    let tr = Tr { case: case.clone(), got: Default::default() };
    let mut g = Gen { world: &world, tr: tr.clone(), want: vec![], next: 0, leaves: vec![] };
    let (mut f, mut m) = g.expr(3);
    for _ in 0..case.below(3) {
        (f, m) = g.wrap(f, m, 2);
    }
    pipeline_run(case, &world, &mut p, tr, g, f, m)
}

fn pipeline_run(case: &Case, world: &World, p: &mut Poller, tr: Tr, g: Gen<'_>, mut fut: BF<'static, R>, m: Result<u64, u64>) {
    let (want, leaves, ops) = (g.want, g.leaves, g.next);
    case.check(tr.got.borrow().is_empty() && leaves.iter().all(|l| !l.started()), || "work done before the first poll".into());
    let stop = stop_at(case);
    match run_conc(world, p, "pipeline", &[], stop, |cx| fut.as_mut().poll(cx), || {}) {
        End::Done(r) => {
            case.eq(key(&m), val(&r), "result of the pipeline");
            case.eq(&*tr.got.borrow(), &want, "closures called, in order, each once");
            if ops >= 3 && leaves.iter().any(|l| l.polls() > 1) {
                case.nontrivial();
            }
        }
        _ => {
            let got = tr.got.borrow();
            case.check(want.starts_with(&got), || format!("closures called {got:?}, expected a prefix of {want:?}"));
        }
    }
    drop(fut);
    world.clear();
    case.no_leaks("pipeline");
}

/// Fuse, catch_unwind, now_or_never, poll_immediate, option, terminated, pending.
fn singles(case: &Case) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    let leaf = |v: u64| LFut::gen(&world, "f", case.tok(v));
    match case.below(13) {
        0 => {
            let f = leaf(1);
            let st = f.st.clone();
            let mut f = Box::pin(f.fuse());
            case.check(!f.is_terminated(), || "fuse: terminated at start".into());
            let r = run_conc(&world, &mut p, "fuse", &[st.clone()], stop_at(case), |cx| f.as_mut().poll(cx), || {});
            match r {
                End::Done(t) => {
                    case.eq(t.v, 1, "fuse value");
                    case.check(f.is_terminated(), || "fuse: not terminated after completion".into());
                    case.check(st.dropped(), || "fuse keeps the finished future".into());
                    for _ in 0..case.range(1, 3) {
                        case.check(p.poll(|cx| f.as_mut().poll(cx)).is_pending(), || "fuse: completes twice".into());
                    }
                }
                _ => case.check(!f.is_terminated(), || "fuse: terminated while pending".into()),
            }
        }
        1 => {
            let mut f = future::Fuse::<future::Ready<u8>>::terminated();
            case.check(f.is_terminated(), || "terminated()".into());
            case.check(p.poll(|cx| f.poll_unpin(cx)).is_pending(), || "terminated() completes".into());
        }
        2 => {
            let panics = case.bool();
            let g = gates(&world);
            let f = if panics { LFut::panicking(&world, "f", g, 42) } else { LFut::new(&world, "f", g, case.tok(5)) };
            let st = f.st.clone();
            let mut f = Box::pin(AssertUnwindSafe(f).catch_unwind());
            match run_conc(&world, &mut p, "catch_unwind", &[st], stop_at(case), |cx| f.as_mut().poll(cx), || {}) {
                End::Done(Ok(t)) => {
                    case.check(!panics, || "value of a future that panicked".into());
                    case.eq(t.v, 5, "catch_unwind value");
                }
                End::Done(Err(e)) => {
                    case.check(panics, || "panic reported for one that did not".into());
                    case.eq(e.downcast_ref::<Injected>().map(|i| i.0), Some(42), "payload of the panic");
                }
                End::Panicked(_) => case.fail("the panic was not caught"),
                End::Stopped => {}
            }
        }
        3 => {
            let f = leaf(3);
            let ready = f.n_gates() == 0;
            let st = f.st.clone();
            let r = f.now_or_never();
            case.eq(r.map(|t| t.v), if ready { Some(3) } else { None }, "now_or_never");
            case.check(st.polls() == 1 && st.dropped(), || "now_or_never polls once and drops".into());
        }
        4 => {
            let f = leaf(4);
            let ready = f.n_gates() == 0;
            let mut f = Box::pin(future::poll_immediate(f));
            match p.poll(|cx| f.as_mut().poll(cx)) {
                Poll::Pending => case.fail("poll_immediate is pending"),
                Poll::Ready(r) => {
                    case.eq(r.map(|t| t.v), if ready { Some(4) } else { None }, "poll_immediate");
                    case.eq(f.is_terminated(), ready, "poll_immediate is_terminated");
                }
            }
        }
        5 => {
            let mut f = future::pending::<u8>();
            case.check(f.is_terminated(), || "pending() should count as terminated".into());
            case.check(p.poll(|cx| f.poll_unpin(cx)).is_pending(), || "pending() completes".into());
        }
        7 => {
            // A future immediately polled as a stream: one answer per poll.
            let f = leaf(8);
            let st = f.st.clone();
            let mut f = Box::pin(future::poll_immediate(f));
            loop {
                let polls = st.polls();
                match p.poll(|cx| stream::Stream::poll_next(f.as_mut(), cx)) {
                    Poll::Ready(Some(Poll::Ready(t))) => {
                        case.eq(t.v, 8, "poll_immediate value");
                        break;
                    }
                    Poll::Ready(Some(Poll::Pending)) => {
                        case.check(!st.done() && !f.is_terminated(), || "pending after completion".into());
                        case.eq(st.polls(), polls + 1, "polls of the future");
                        if !world.fire_some() && !p.woken() {
                            case.fail("nothing left to wait for");
                        }
                    }
                    Poll::Ready(None) => case.fail("poll_immediate ended before the future"),
                    Poll::Pending => case.fail("poll_immediate is pending"),
                }
            }
            case.check(f.is_terminated() && st.dropped(), || "poll_immediate keeps a finished future".into());
            for _ in 0..2 {
                case.check(matches!(p.poll(|cx| stream::Stream::poll_next(f.as_mut(), cx)), Poll::Ready(None)), || "items after the end".into());
            }
        }
        8 => {
            // The macros that poll once and that give way once.
            let f = leaf(9);
            let ready = f.n_gates() == 0;
            let st = f.st.clone();
            let n = case.range(1, 3);
            let wakes = Rc::new(RefCell::new(0));
            let w2 = wakes.clone();
            let mut a: BF<'_, (Option<u64>, u64)> = Box::pin(async move {
                let mut f = Box::pin(f);
                let r = futures::poll!(f.as_mut());
                for _ in 0..n {
                    *w2.borrow_mut() += 1;
                    futures::pending!();
                }
                match r {
                    Poll::Ready(t) => (Some(t.v), 0),
                    Poll::Pending => (None, f.await.v),
                }
            });
            for i in 1..=n {
                case.check(p.poll(|cx| a.as_mut().poll(cx)).is_pending(), || "pending! does not give way".into());
                case.eq(*wakes.borrow(), i, "steps taken");
                case.eq(st.polls(), 1, "polls by poll!");
                case.eq(st.done(), ready, "state of the polled future");
                // `pending!` wakes nobody; poll again regardless.
            }
            p.set_woken();
            match run_conc(&world, &mut p, "poll!", &[st.clone()], None, |cx| a.as_mut().poll(cx), || {}) {
                End::Done(r) => case.eq(r, if ready { (Some(9), 0) } else { (None, 9) }, "what poll! saw"),
                _ => unreachable!(),
            }
        }
        9 => {
            let n = Rc::new(RefCell::new(0u64));
            let n2 = n.clone();
            let mut f = future::always_ready(move || {
                *n2.borrow_mut() += 1;
                *n2.borrow()
            });
            case.eq(*n.borrow(), 0, "calls before the first poll");
            for i in 1..=case.range(1, 3) as u64 {
                case.check(!f.is_terminated(), || "always_ready: terminated".into());
                if case.chance(1, 3) {
                    f = f.clone();
                }
                case.eq(p.poll(|cx| f.poll_unpin(cx)), Poll::Ready(i), "always_ready");
            }
        }
        10 => {
            let some = case.bool();
            let f = leaf(10);
            let st = f.st.clone();
            let mut f = Box::pin(future::OptionFuture::from(if some { Some(f) } else { None }));
            if some {
                match run_conc(&world, &mut p, "OptionFuture", &[st.clone()], stop_at(case), |cx| f.as_mut().poll(cx), || {}) {
                    End::Done(r) => case.eq(r.map(|t| t.v), Some(10), "OptionFuture"),
                    _ => case.check(!st.done(), || "pending after completion".into()),
                }
            } else {
                let d = case.bool();
                let r = p.poll(|cx| if d { future::OptionFuture::<BF<'_, Tok>>::default().poll_unpin(cx) } else { f.as_mut().poll(cx) });
                case.check(matches!(r, Poll::Ready(None)), || "OptionFuture of nothing".into());
            }
        }
        11 => {
            let n = Rc::new(RefCell::new(0));
            let n2 = n.clone();
            let t = case.tok(11);
            let mut f = future::lazy(move |_| {
                *n2.borrow_mut() += 1;
                t
            });
            case.check(*n.borrow() == 0 && !f.is_terminated(), || "lazy runs before it is polled".into());
            if case.bool() {
                let r = p.poll(|cx| f.poll_unpin(cx));
                case.check(matches!(r, Poll::Ready(t) if t.v == 11), || "lazy".into());
                case.check(*n.borrow() == 1 && f.is_terminated(), || "lazy: calls or is_terminated".into());
            }
        }
        6 => {
            let mut f = future::ready(case.tok(6));
            case.check(!f.is_terminated(), || "ready: terminated at start".into());
            if case.bool() {
                case.eq(f.into_inner().v, 6, "ready into_inner");
            } else {
                match p.poll(|cx| f.poll_unpin(cx)) {
                    Poll::Ready(t) => case.eq(t.v, 6, "ready"),
                    _ => case.fail("ready() is pending"),
                }
                case.check(f.is_terminated(), || "ready: not terminated".into());
            }
        }
        _ => {
            // Terminated flags along a chain of fused combinators.
            let f = leaf(7);
            let mut f = Box::pin(f.map(|t| t).inspect(|_| ()).map_into::<Tok>().then(future::ready));
            case.check(!f.is_terminated(), || "chain: terminated at start".into());
            let r = run_conc(&world, &mut p, "chain", &[], stop_at(case), |cx| f.as_mut().poll(cx), || {});
            case.eq(f.is_terminated(), matches!(r, End::Done(_)), "chain: is_terminated");
        }
    }
    case.nontrivial();
    world.clear();
    case.no_leaks("singles");
}

fn main() {
    main_for(vec![
        Prop {
            id: "C10",
            rule: "join/join3-5/join!/join_all (small, large, unbounded iterators) and their try_ forms over scripted futures (gated by events, self-waking, failing, panicking), polled only when woken, dropped midway by choice. Non-trivial: >=2 futures that had to wait (or a failure with >=2 futures).",
            subs: vec![
                sub("join", joins, 2_000_000, 20_000_000).miri(48, 2000),
                sub("try_join", try_joins, 2_000_000, 20_000_000).miri(48, 2000),
                sub("maybe", maybe, 250_000, 2_500_000).miri(16, 400),
            ],
        },
        Prop {
            id: "C11",
            rule: "select/try_select/select_all/select_ok and select!/select_biased! (with complete, default, expressions, streams) over scripted futures, losers continued afterwards. Non-trivial: at least one (pair: both; many: two) had to wait / an event-gated branch.",
            subs: vec![
                sub("select2", select2, 1_000_000, 10_000_000).miri(32, 1000),
                sub("many", select_many, 1_500_000, 15_000_000).miri(32, 1000),
                sub("macros", macros, 1_500_000, 15_000_000).miri(32, 1000),
                sub("streams", macro_streams, 400_000, 4_000_000).miri(16, 500),
                sub("fair", macro_fair, 1_000, 10_000),
            ],
        },
        Prop {
            id: "C29",
            rule: "pipeline: random expressions (up to depth 3) of all sequential future combinators over scripted leaves, model = the value of the expression and the exact sequence of closure calls; singles: fuse, catch_unwind, now_or_never, poll_immediate (also as a stream), poll!, pending!, always_ready, OptionFuture, lazy, ready, pending and is_terminated. Non-trivial: >=3 combinators with a leaf that had to wait.",
            subs: vec![
                sub("pipeline", pipeline, 3_000_000, 30_000_000).miri(64, 2000),
                sub("singles", singles, 500_000, 5_000_000).miri(32, 400),
            ],
        },
    ]);
}
