//! Sets and queues of futures, concurrency limits, merging of streams.
use futures::future::{self, Future, FutureExt};
use futures::stream::{self, FusedStream, FuturesOrdered, FuturesUnordered, Stream, StreamExt, TryStreamExt};
use std::collections::{BTreeMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use vh::case::{Case, Injected, Tok};
use vh::leaf::{gates, LFut, LStream, LeafSt};
use vh::par::{self, body, Body};
use vh::runner::{main_for, sub, Prop};
use vh::sim::{drive, Poller, World};

// ------------------------------------------------------------------ C06 set

trait Kind: Future<Output = Tok> {
    fn wrap(f: LFut<Tok>) -> Self;
    fn name(&self) -> u64;
    /// Turns the set into its futures, where that is possible.
    fn take_all(set: FuturesUnordered<Self>) -> Result<Vec<Self>, FuturesUnordered<Self>>
    where
        Self: Sized;
    /// The names by `iter` or `iter_mut`, where that is possible.
    fn names(_: &mut FuturesUnordered<Self>, _how: usize) -> Option<Vec<u64>>
    where
        Self: Sized,
    {
        None
    }
}

/// Stored inline (never moves inside the set).
impl Kind for LFut<Tok> {
    fn wrap(f: LFut<Tok>) -> Self {
        f
    }
    fn name(&self) -> u64 {
        self.name.parse().unwrap()
    }
    fn take_all(set: FuturesUnordered<Self>) -> Result<Vec<Self>, FuturesUnordered<Self>> {
        Err(set)
    }
}

impl Kind for Pin<Box<LFut<Tok>>> {
    fn wrap(f: LFut<Tok>) -> Self {
        Box::pin(f)
    }
    fn name(&self) -> u64 {
        self.name.parse().unwrap()
    }
    fn take_all(set: FuturesUnordered<Self>) -> Result<Vec<Self>, FuturesUnordered<Self>> {
        let it = set.into_iter();
        let n = it.len();
        let v: Vec<_> = it.collect();
        assert_eq!(v.len(), n, "into_iter length");
        Ok(v)
    }
    fn names(set: &mut FuturesUnordered<Self>, how: usize) -> Option<Vec<u64>> {
        Some(match how {
            0 => (&*set).into_iter().map(|f| f.name()).collect(),
            1 => (&mut *set).into_iter().map(|f| f.name()).collect(),
            2 => {
                // each length along the way
                let mut it = set.iter();
                let mut v = vec![];
                loop {
                    let n = it.len();
                    let h = it.size_hint();
                    assert_eq!(h, (n, Some(n)), "bounds of iter");
                    match it.next() {
                        Some(f) => v.push(f.name()),
                        None => {
                            assert_eq!(n, 0, "length of iter at its end");
                            break v;
                        }
                    }
                    assert_eq!(it.len(), n - 1, "length of iter after next");
                }
            }
            _ => {
                let mut it = set.iter_mut();
                let mut v = vec![];
                loop {
                    let n = it.len();
                    match it.next() {
                        Some(f) => v.push(f.name()),
                        None => {
                            assert_eq!(n, 0, "length of iter_mut at its end");
                            break v;
                        }
                    }
                    assert_eq!(it.len(), n - 1, "length of iter_mut after next");
                }
            }
        })
    }
}

struct Member {
    st: Arc<LeafSt>,
    panics: bool,
}

fn check_members<F: Kind>(case: &Case, set: &mut FuturesUnordered<F>, live: &BTreeMap<u64, Member>) {
    case.eq(set.len(), live.len(), "len");
    case.eq(set.is_empty(), live.is_empty(), "is_empty");
    case.eq(set.size_hint(), (live.len(), Some(live.len())), "size_hint");
    let how = case.below(7);
    let mut names: Vec<u64> = match how {
        3.. => match F::names(set, how - 3) {
            Some(v) => v,
            None => return,
        },
        0 => {
            let it = Pin::new(&*set).iter_pin_ref();
            case.eq(it.len(), live.len(), "iter_pin_ref length");
            it.map(|f| f.get_ref().name()).collect()
        }
        1 => {
            let it = Pin::new(&mut *set).iter_pin_mut();
            case.eq(it.len(), live.len(), "iter_pin_mut length");
            it.map(|f| f.as_ref().get_ref().name()).collect()
        }
        _ => return,
    };
    names.sort();
    case.eq(names, live.keys().copied().collect::<Vec<_>>(), "iteration visits every future once");
}

fn fu_seq<F: Kind>(case: &Case) {
    let world = World::new(case);
    let mut p = Poller::new(case);
    let mut live: BTreeMap<u64, Member> = BTreeMap::new();
    let mut all: Vec<Arc<LeafSt>> = vec![];
    let mut next = 0u64;
    let mk = |next: &mut u64, live: &mut BTreeMap<u64, Member>, all: &mut Vec<Arc<LeafSt>>| -> F {
        let id = *next;
        *next += 1;
        let panics = case.chance(1, 16);
        let g = gates(&world);
        let mut f = if panics {
            LFut::panicking(&world, id.to_string(), g, id)
        } else {
            LFut::new(&world, id.to_string(), g, case.tok(id))
        };
        if case.bool() {
            f = f.keeping_wakers();
        }
        live.insert(id, Member { st: f.st.clone(), panics });
        all.push(f.st.clone());
        F::wrap(f)
    };
    let n0 = case.len(6);
    let mut set: FuturesUnordered<F> = (0..n0).map(|_| mk(&mut next, &mut live, &mut all)).collect();
    case.log(|| format!("collect {n0} futures"));
    let mut terminated = Some(false);
    // Pending was returned, no push or clear since.
    let mut pending = false;
    let (mut done, mut yields_after_event) = (0, 0);
    for _ in 0..case.big(4, 50, 400) {
        match case.below(16) {
            0..=6 => {
                if !pending || p.woken() || case.chance(1, 6) {
                    let was_woken = p.woken();
                    let r = catch_unwind(AssertUnwindSafe(|| p.poll(|cx| set.poll_next_unpin(cx))));
                    case.log(|| format!("poll_next -> {r:?}"));
                    match r {
                        Ok(Poll::Ready(Some(t))) => {
                            if pending && !was_woken {
                                case.fail(format!("future {} had completed but the set's task was not woken", t.v));
                            }
                            let Some(m) = live.remove(&t.v) else {
                                case.fail(format!("output of {} given twice or never submitted", t.v))
                            };
                            case.check(m.st.done() && !m.panics, || "output of an unfinished future".into());
                            case.check(m.st.dropped(), || format!("future {} kept alive after its output", t.v));
                            done += 1;
                            pending = false;
                            terminated = Some(false);
                            if m.st.polls() > 1 {
                                yields_after_event += 1;
                            }
                        }
                        Ok(Poll::Ready(None)) => {
                            case.check(live.is_empty(), || format!("end with futures in the set: {:?}", live.keys()));
                            terminated = Some(true);
                            pending = false;
                        }
                        Ok(Poll::Pending) => {
                            case.check(!live.is_empty(), || "pending although empty".into());
                            terminated = Some(false);
                            pending = true;
                            if !p.woken() {
                                for (k, m) in &live {
                                    case.check(m.st.started(), || format!("pending, not woken, and future {k} was never polled"));
                                    case.check(m.st.blocked(), || format!("pending, not woken, but future {k} can make progress"));
                                }
                            }
                        }
                        Err(e) => {
                            let Some(Injected(k)) = e.downcast_ref::<Injected>() else {
                                std::panic::resume_unwind(e)
                            };
                            case.label("a_future_panicked");
                            let Some(m) = live.remove(k) else { case.fail("panic of a future that is gone") };
                            case.check(m.panics && m.st.dropped(), || format!("panicked future {k} kept alive"));
                            pending = false;
                            terminated = None;
                            p.set_woken();
                        }
                    }
                }
            }
            7 | 8 => {
                let f = mk(&mut next, &mut live, &mut all);
                case.log(|| format!("push {}", next - 1));
                set.push(f);
                case.check(!all.last().unwrap().started(), || "push polled the future".into());
                pending = false;
                terminated = Some(false);
            }
            9..=11 => {
                world.fire_some();
            }
            12 => {
                let i = case.below(all.len().max(1));
                if let Some(st) = all.get(i) {
                    if st.wake_stash(case) {
                        case.label("woke_through_kept_waker");
                        case.log(|| format!("wake a kept waker of {i}"));
                    }
                }
            }
            13 => check_members(case, &mut set, &live),
            14 if case.chance(1, 6) => {
                case.log(|| "clear".into());
                set.clear();
                for (k, m) in &live {
                    case.check(m.st.dropped(), || format!("clear left future {k} alive"));
                }
                live.clear();
                pending = false;
                terminated = None;
            }
            15 if case.chance(1, 6) => {
                // move the futures to a new set
                match F::take_all(std::mem::take(&mut set)) {
                    Ok(v) => {
                        case.log(|| "into_iter, refill".into());
                        let mut names: Vec<u64> = v.iter().map(|f| f.name()).collect();
                        names.sort();
                        case.eq(names, live.keys().copied().collect::<Vec<_>>(), "into_iter gives every future");
                        for m in live.values() {
                            m.st.allowed.fetch_add(1, SeqCst);
                        }
                        set.extend(v);
                    }
                    Err(s) => set = s,
                }
                pending = false;
                terminated = None;
            }
            _ => {}
        }
        if let Some(t) = terminated {
            case.eq(set.is_terminated(), t, "is_terminated");
        }
        // Futures are polled only when new or woken.
        for (k, m) in &live {
            let (polls, allowed) = (m.st.polls(), m.st.allowed.load(SeqCst));
            case.check(polls <= allowed, || format!("future {k} polled {polls} times with at most {} wakeups", allowed - 1));
            // An event that fired reached the set's task.
            if pending && m.st.started() && !m.st.blocked() {
                case.check(p.woken(), || format!("future {k} was woken but the set's task was not"));
            }
        }
    }
    // Run it dry, or drop it with futures inside.
    if case.chance(1, 3) {
        case.log(|| "drop the set".into());
        drop(set);
        for (k, m) in &live {
            case.check(m.st.dropped(), || format!("future {k} outlived the set"));
        }
    } else {
        p.set_woken();
        while !live.is_empty() {
            let r = catch_unwind(AssertUnwindSafe(|| drive(&mut p, &world, "FuturesUnordered", |cx| set.poll_next_unpin(cx))));
            match r {
                Ok(Some(t)) => {
                    case.log(|| format!("poll_next -> {t:?}"));
                    case.check(live.remove(&t.v).is_some(), || format!("unknown or repeated output {t:?}"));
                    done += 1;
                }
                Ok(None) => case.fail(format!("end with futures in the set: {:?}", live.keys())),
                Err(e) => match e.downcast_ref::<Injected>() {
                    Some(Injected(k)) => {
                        live.remove(k);
                        p.set_woken();
                    }
                    None => std::panic::resume_unwind(e),
                },
            }
        }
        case.eq(drive(&mut p, &world, "FuturesUnordered end", |cx| set.poll_next_unpin(cx)).map(|t| t.v), None, "end of the set");
        drop(set);
    }
    // Kept wakers outlive the set.
    for st in &all {
        while st.wake_stash(case) {}
    }
    world.clear();
    case.no_leaks("FuturesUnordered");
    if done >= 2 && yields_after_event >= 1 {
        case.nontrivial();
    }
}

/// Used as a spawner: every task is run once to its end, or dropped with the set.
fn fu_spawner(case: &Case) {
    use futures::task::{FutureObj, LocalFutureObj, LocalSpawnExt, SpawnExt};
    let world = World::new(case);
    let mut p = Poller::new(case);
    let n = case.range(1, 6);
    let mut sts = vec![];
    let done: Arc<Mutex<Vec<u64>>> = Default::default();
    let mut handles = vec![];
    let local = case.bool();
    case.log(|| format!("{n} tasks, local: {local}"));
    let mut polled = 0;
    macro_rules! go {
        ($set:ident, $spawn:ident, $handle:ident) => {{
            for i in 0..n as u64 {
                let f = LFut::new(&world, i.to_string(), gates(&world), case.tok(i));
                sts.push(f.st.clone());
                let done = done.clone();
                let f = async move {
                    let t = f.await;
                    done.lock().unwrap().push(t.v);
                    t
                };
                if case.bool() {
                    handles.push((i, $set.$handle(f).unwrap()));
                } else {
                    $set.$spawn(f.map(|_| ())).unwrap();
                }
                case.check(!sts.last().unwrap().started(), || "spawning polled the task".into());
                if case.chance(1, 3) {
                    polled += 1;
                    let r = p.poll(|cx| $set.poll_next_unpin(cx));
                    case.log(|| format!("poll_next -> {r:?}"));
                }
            }
            case.eq($set.len(), n - done.lock().unwrap().len(), "tasks in the set");
            if case.chance(1, 4) {
                drop($set);
                case.check(sts.iter().all(|s| s.dropped()), || "a task outlived the set".into());
            } else {
                p.set_woken();
                while drive(&mut p, &world, "the spawner", |cx| $set.poll_next_unpin(cx)).is_some() {}
                let mut d = done.lock().unwrap().clone();
                d.sort();
                case.eq(d, (0..n as u64).collect::<Vec<_>>(), "tasks that ran to their end");
                for (i, h) in handles.drain(..) {
                    let r = h.now_or_never();
                    case.eq(r.map(|t| t.v), Some(i), "output through the handle");
                }
            }
        }};
    }
    if local {
        let mut set: FuturesUnordered<LocalFutureObj<'static, ()>> = FuturesUnordered::new();
        go!(set, spawn_local, spawn_local_with_handle);
    } else {
        let mut set: FuturesUnordered<FutureObj<'static, ()>> = FuturesUnordered::new();
        go!(set, spawn, spawn_with_handle);
    }
    handles.clear();
    world.clear();
    case.no_leaks("FuturesUnordered as a spawner");
    case.label_if(polled > 0, "polled_between");
    if n > 1 {
        case.nontrivial();
    }
}

fn fu_seq_inline(c: &Case) {
    fu_seq::<LFut<Tok>>(c)
}
fn fu_seq_boxed(c: &Case) {
    fu_seq::<Pin<Box<LFut<Tok>>>>(c)
}

/// No future that was woken is starved by others that wake themselves all the time.
fn fu_fair(case: &Case) {
    /// Wakes itself, or every other one (which then is not seen to yield).
    struct Busy {
        i: usize,
        by_ref: bool,
        others: bool,
        count: Arc<AtomicU64>,
        in_poll: Arc<AtomicU64>,
        wakers: Arc<Mutex<Vec<Option<Waker>>>>,
        case: Case,
    }
    impl Future for Busy {
        type Output = u64;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
            self.count.fetch_add(1, SeqCst);
            if self.in_poll.fetch_add(1, SeqCst) > 2000 {
                self.case.fail("one poll of the set goes on and on polling futures that wake one another");
            }
            if self.others {
                let mut w = self.wakers.lock().unwrap();
                w[self.i] = Some(cx.waker().clone());
                let n = w.len();
                for (j, w) in w.iter().enumerate() {
                    if j != self.i || n == 1 {
                        w.as_ref().map(Waker::wake_by_ref);
                    }
                }
            } else if self.by_ref {
                cx.waker().wake_by_ref();
            } else {
                cx.waker().clone().wake();
            }
            Poll::Pending
        }
    }
    let n = case.range(1, 6);
    let world = World::new(case);
    let counts: Vec<Arc<AtomicU64>> = (0..n).map(|_| Default::default()).collect();
    let set: FuturesUnordered<future::Either<Busy, LFut<u64>>> = FuturesUnordered::new();
    let at = case.below(n + 1);
    let mut st = None;
    let others = case.chance(1, 3);
    let in_poll = Arc::new(AtomicU64::new(0));
    let wakers = Arc::new(Mutex::new(vec![None; n]));
    for i in 0..=n {
        if i == at {
            let f = LFut::gen(&world, "target", 7u64);
            st = Some(f.st.clone());
            set.push(future::Either::Right(f));
        }
        if i < n {
            set.push(future::Either::Left(Busy {
                i,
                by_ref: case.bool(),
                others,
                count: counts[i].clone(),
                in_poll: in_poll.clone(),
                wakers: wakers.clone(),
                case: case.clone(),
            }));
        }
    }
    let st = st.unwrap();
    let mut set = set;
    let mut p = Poller::new(case);
    let mut rounds = 0u64;
    loop {
        in_poll.store(0, SeqCst);
        match p.poll(|cx| set.poll_next_unpin(cx)) {
            Poll::Ready(Some(7)) => break,
            Poll::Ready(x) => case.fail(format!("unexpected {x:?}")),
            Poll::Pending => {}
        }
        rounds += 1;
        case.check(p.woken(), || "self-waking futures, but the task was not woken".into());
        let c: Vec<u64> = counts.iter().map(|c| c.load(SeqCst)).collect();
        let (lo, hi) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
        case.check(hi - lo <= 4 + hi / 2, || format!("self-waking futures starve one another: {c:?}"));
        if rounds > 12 {
            world.fire_some();
        }
        if rounds > 400 {
            case.fail(format!("a woken future is starved: polled {} times in {rounds} rounds, others {c:?}", st.polls()));
        }
    }
    wakers.lock().unwrap().clear();
    if others {
        case.label("wake_one_another");
    }
    if n >= 2 {
        case.nontrivial();
    }
}

// ----------------------------------------------------------- events on threads

#[derive(Default)]
struct TEv {
    st: Mutex<(bool, Option<Waker>)>,
}

impl TEv {
    fn fire(&self) {
        let w = {
            let mut g = self.st.lock().unwrap();
            g.0 = true;
            g.1.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
    fn poll(&self, cx: &mut Context<'_>) -> Poll<()> {
        let (r, old) = {
            let mut g = self.st.lock().unwrap();
            if g.0 {
                (Poll::Ready(()), None)
            } else {
                (Poll::Pending, g.1.replace(cx.waker().clone()))
            }
        };
        drop(old);
        r
    }
}

struct TFut {
    evs: Vec<Arc<TEv>>,
    at: usize,
    out: Option<Tok>,
}

impl Future for TFut {
    type Output = Tok;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Tok> {
        let s = &mut *self;
        while s.at < s.evs.len() {
            if s.evs[s.at].poll(cx).is_pending() {
                return Poll::Pending;
            }
            s.at += 1;
        }
        Poll::Ready(s.out.take().expect("polled after completion"))
    }
}

/// Builds futures with events spread over `k` firing threads.
fn t_futs(case: &Case, n: usize, k: usize) -> (Vec<TFut>, Vec<Vec<Arc<TEv>>>) {
    let mut lists: Vec<Vec<Arc<TEv>>> = vec![vec![]; k];
    let futs = (0..n)
        .map(|i| {
            let m = case.weighted(&[1, 5, 2]);
            let evs: Vec<Arc<TEv>> = (0..m).map(|_| Arc::default()).collect();
            for e in &evs {
                lists[case.below(k)].push(e.clone());
            }
            TFut { evs, at: 0, out: Some(case.tok(i as u64)) }
        })
        .collect();
    (futs, lists)
}

fn firing(name: usize, list: Vec<Arc<TEv>>) -> (String, Body) {
    (
        format!("waker{name}"),
        body(move |th| {
            for e in list {
                th.point();
                e.fire();
            }
        }),
    )
}

/// What a thread wrote before it woke a member is visible to the poll of that
/// member which the wake caused. The owner only polls (parking would order the
/// threads by itself) and the data is plain, so Miri's race detector decides.
fn fu_publish(case: &Case) {
    let n = case.range(1, 3);
    let mut bodies: Vec<(String, Body)> = vec![];
    let set = FuturesUnordered::new();
    let fin: Arc<std::sync::atomic::AtomicUsize> = Default::default();
    for i in 0..n {
        let (f, b) = vh::thr::published(case.bool(), case.below(3), &fin);
        set.push(f);
        bodies.push((format!("waker{i}"), b));
    }
    publish_drive(case, Box::pin(set), n, fin, bodies);
}

/// Polls the stream while the others run until it has yielded its `n` items.
fn publish_drive(
    case: &Case,
    mut set: Pin<Box<dyn Stream<Item = u64> + Send>>,
    n: usize,
    fin: Arc<std::sync::atomic::AtomicUsize>,
    mut bodies: Vec<(String, Body)>,
) {
    let left = Arc::new(Mutex::new(None));
    let l2 = left.clone();
    bodies.push((
        "owner".into(),
        body(move |th| {
            let mut got = 0;
            let mut idle = 0;
            while got < n && idle < 40 {
                match th.poll_cx(|cx| set.poll_next_unpin(cx)) {
                    Poll::Ready(Some(v)) => {
                        th.check(v == 7, || format!("read {v}, not what was written before the wake"));
                        got += 1;
                    }
                    Poll::Ready(None) => th.case.fail("the stream ended early"),
                    Poll::Pending => {
                        if fin.load(std::sync::atomic::Ordering::Relaxed) == n {
                            idle += 1;
                        }
                        th.pause();
                    }
                }
            }
            *l2.lock().unwrap() = Some((set, got));
        }),
    ));
    par::run(case, bodies);
    // All threads have been joined: what is still queued is visible now, and
    // what is not queued has lost its wakeup.
    let (mut set, mut got) = left.lock().unwrap().take().unwrap();
    let mut cx = Context::from_waker(futures::task::noop_waker_ref());
    for _ in 0..10 {
        if got == n {
            break;
        }
        if let Poll::Ready(Some(v)) = set.poll_next_unpin(&mut cx) {
            case.eq(v, 7, "value read");
            got += 1;
        }
    }
    case.eq(got, n, "futures that were polled after the data for them had been written and they had been woken");
    case.nontrivial();
}

/// The owner polls the set while other threads wake its futures; sometimes it
/// is dropped in the middle.
fn fu_threads(case: &Case) {
    let n = case.range(1, 4);
    let k = case.range(1, 3);
    let (futs, lists) = t_futs(case, n, k);
    let drop_after = if case.chance(1, 3) { case.below(n + 1) } else { usize::MAX };
    let push_late = case.below(n + 1);
    let mut bodies: Vec<(String, Body)> = vec![];
    let seen = Arc::new(Mutex::new(vec![]));
    let out = seen.clone();
    bodies.push((
        "owner".into(),
        body(move |th| {
            let mut it = futs.into_iter();
            let mut set: FuturesUnordered<TFut> = FuturesUnordered::new();
            for f in it.by_ref().take(push_late) {
                set.push(f);
            }
            let mut got = vec![];
            loop {
                if got.len() >= drop_after {
                    // one more poll so that wakers are registered, then drop
                    let _ = th.poll_cx(|cx| set.poll_next_unpin(cx));
                    break;
                }
                let r = th.block_on_fn(|cx| set.poll_next_unpin(cx));
                match r {
                    Some(t) => {
                        th.log(|| format!("output {t:?}"));
                        got.push(t.v)
                    }
                    None => match it.next() {
                        Some(f) => set.push(f),
                        None => break,
                    },
                }
                if th.chance(1, 3) {
                    if let Some(f) = it.next() {
                        set.push(f)
                    }
                }
            }
            drop(set);
            drop(it);
            out.lock().unwrap().extend(got);
        }),
    ));
    for (i, l) in lists.into_iter().enumerate() {
        bodies.push(firing(i, l));
    }
    par::run(case, bodies);
    let mut g = seen.lock().unwrap().clone();
    g.sort();
    if drop_after == usize::MAX {
        case.eq(g, (0..n as u64).collect::<Vec<_>>(), "every future's output comes out once");
    } else {
        let l = g.len();
        g.dedup();
        case.eq(g.len(), l, "no output twice");
        case.label("dropped_with_wakers_outside");
    }
    case.no_leaks("FuturesUnordered, threads");
    case.nontrivial();
}

/// Shared access: several threads push while others count and iterate.
fn fu_shared(case: &Case) {
    let n = case.range(1, 3);
    let per = case.range(1, 3);
    let set: Arc<FuturesUnordered<future::Ready<u64>>> = Arc::new(FuturesUnordered::new());
    let pre = case.below(3) as u64;
    for i in 0..pre {
        set.push(future::ready(i));
    }
    let mut bodies: Vec<(String, Body)> = vec![];
    for t in 0..n {
        let s = set.clone();
        bodies.push((
            format!("pusher{t}"),
            body(move |th| {
                for i in 0..per {
                    th.point();
                    s.push(future::ready(100 + (t * 10 + i) as u64));
                    th.check(!s.is_empty(), || "empty right after a push".into());
                }
            }),
        ));
    }
    for t in 0..case.range(1, 2) {
        let s = set.clone();
        bodies.push((
            format!("reader{t}"),
            body(move |th| {
                let mut last = 0;
                for _ in 0..2 {
                    th.point();
                    let it = s.iter();
                    let l = it.len();
                    let c = it.count();
                    th.check(l == c, || format!("iterator announced {l} futures and gave {c}"));
                    let len = s.len();
                    th.check(c <= len && last <= c, || format!("the set shrank while only pushed to: {last} {c} {len}"));
                    last = c;
                }
            }),
        ));
    }
    par::run(case, bodies);
    let mut set = Arc::try_unwrap(set).ok().expect("all threads are done");
    let total = pre as usize + n * per;
    case.eq(set.len(), total, "len after all pushes");
    let mut got = vec![];
    let mut p = Poller::new(case);
    let mut guard = 0;
    loop {
        match p.poll(|cx| set.poll_next_unpin(cx)) {
            Poll::Ready(Some(v)) => got.push(v),
            Poll::Ready(None) => break,
            Poll::Pending => {
                guard += 1;
                case.check(p.woken() && guard < 1000, || "ready futures, but pending and not woken".into())
            }
        }
    }
    got.sort();
    let mut want: Vec<u64> = (0..pre).collect();
    for t in 0..n {
        for i in 0..per {
            want.push(100 + (t * 10 + i) as u64);
        }
    }
    case.eq(got, want, "pushed futures all complete");
    case.nontrivial();
}

include!("../inc/unord_more.rs");

fn main() {
    main_for(vec![
        Prop {
            id: "C06",
            rule: "seq: histories of collect/push/poll/wake/clear/iterate/refill/drop over scripted futures (inline pinned or boxed; self-waking, event-gated, panicking; wakers kept and woken late), model = the set of live futures; fair: futures waking themselves or one another next to a gated one; threads: owner polls (or drops) while 1-3 threads wake, schedule controlled; shared: concurrent push/iterate. Non-trivial: >=2 outputs of which one after a wakeup / >=2 competitors / every thread case.",
            subs: vec![
                sub("seq", fu_seq_inline, 750_000, 7_500_000).miri(48, 2000),
                sub("boxed", fu_seq_boxed, 600_000, 6_000_000).miri(48, 2000),
                sub("spawner", fu_spawner, 100_000, 1_000_000).miri(16, 200),
                sub("fair", fu_fair, 500_000, 5_000_000),
                sub("threads", fu_threads, 80_000, 2_000_000).miri(120, 3000),
                sub("publish", fu_publish, 10_000, 100_000).miri(64, 2000),
                sub("shared", fu_shared, 50_000, 1_000_000).miri(80, 2000),
            ],
        },
        c07(),
        c08(),
        c09(),
    ]);
}
