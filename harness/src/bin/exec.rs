//! C20 single-threaded executors, C21 thread pool, C30 wakers, future objects, spawners.
use futures::executor::{block_on, block_on_stream, enter, LocalPool, LocalSpawner, ThreadPool};
use futures::future::{FutureExt, RemoteHandle};
use futures::stream::Stream;
use futures::task::{
    noop_waker, noop_waker_ref, waker, waker_ref, ArcWake, FutureObj, LocalFutureObj, LocalSpawn, LocalSpawnExt, Spawn,
    SpawnError, SpawnExt,
};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use vh::case::Injected;
use vh::par::{self, body, Body};
use vh::runner::sub;
use vh::thr::{eat_token, pt, Evs, TFut};
use vh::{main_for, Case, Prop, Tok};

// ------------------------------------------------------------------ C20

thread_local! {
    static SPAWNER: RefCell<Option<LocalSpawner>> = const { RefCell::new(None) };
}

#[derive(Clone, Debug)]
enum Step {
    Wait(usize),
    /// Wakes itself and returns pending; true: through a clone of the waker.
    Yield(bool),
    Spawn(u8),
    Fire(usize),
    /// Keeps a waker for later.
    Stash,
    Nested,
    Panic,
}

#[derive(Default)]
struct Info {
    runnable: bool,
    done: bool,
    dropped: bool,
    polls: usize,
}

#[derive(Default)]
struct Pst {
    tasks: Vec<Info>,
    /// fired, waiters
    evs: Vec<(bool, Vec<(usize, Waker)>)>,
    stash: Vec<Waker>,
    auto: bool,
    in_call: bool,
    main: Option<usize>,
    ends: usize,
}

#[derive(Clone)]
struct Pw {
    case: Case,
    st: Arc<Mutex<Pst>>,
}

impl Pw {
    fn with<R>(&self, f: impl FnOnce(&mut Pst) -> R) -> R {
        f(&mut self.st.lock().unwrap_or_else(|e| e.into_inner()))
    }
    fn event(&self) -> usize {
        self.with(|s| {
            s.evs.push((false, vec![]));
            s.evs.len() - 1
        })
    }
    fn fire(&self, e: usize) {
        self.case.log(|| format!("fire {e}"));
        let ws = self.with(|s| {
            s.evs[e].0 = true;
            let ws = std::mem::take(&mut s.evs[e].1);
            for (t, _) in &ws {
                s.tasks[*t].runnable = true;
            }
            ws
        });
        for (_, w) in ws {
            if self.case.bool() {
                w.wake_by_ref()
            } else {
                w.wake()
            }
        }
    }
    fn steps(&self, depth: usize, evs: &[usize]) -> VecDeque<Step> {
        let c = &self.case;
        (0..c.len(5))
            .map(|_| match c.weighted(&[6, 4, if depth < 2 { 3 } else { 0 }, 2, 1, 1, 1]) {
                0 if !evs.is_empty() => Step::Wait(*c.pick(evs)),
                2 => Step::Spawn(c.below(4) as u8),
                3 if !evs.is_empty() => Step::Fire(*c.pick(evs)),
                4 => Step::Stash,
                5 => Step::Nested,
                6 if c.chance(1, 6) => Step::Panic,
                _ => Step::Yield(c.bool()),
            })
            .collect()
    }
    fn task(&self, depth: usize, steps: VecDeque<Step>) -> PTask {
        let id = self.with(|s| {
            s.tasks.push(Info { runnable: true, ..Default::default() });
            s.tasks.len() - 1
        });
        self.case.log(|| format!("new task {id} {steps:?}"));
        PTask { w: self.clone(), id, depth, steps, on_drop: self.case.chance(1, 12), caught: false, _tok: self.case.tok_kind(id as u64, "task"), _pin: std::marker::PhantomPinned }
    }
    /// Spawns through the pool's spawner; whether that worked.
    fn spawn(&self, mut t: PTask, how: u8) -> bool {
        t.caught = how >= 2;
        SPAWNER.with(|s| {
            let s = s.borrow().clone();
            let Some(s) = s else { return false };
            self.case.log(|| format!("spawn task {} by {how}", t.id));
            let (ok, r) = match how {
                0 => (s.status_local().is_ok(), s.spawn_local(t)),
                1 => (s.status().is_ok(), s.spawn(t)),
                2 => (s.status_local().is_ok(), s.spawn_local_with_handle(t).map(|h| h.forget())),
                _ => (s.status().is_ok(), s.spawn_with_handle(t).map(|h| h.forget())),
            };
            if let Err(e) = &r {
                self.case.check(e.is_shutdown(), || "a spawn error that is no shutdown".into());
            }
            self.case.check(ok == r.is_ok(), || format!("status says {ok}, spawning says {}", r.is_ok()));
            r.is_ok()
        })
    }
    fn runnable(&self) -> Vec<usize> {
        self.with(|s| (0..s.tasks.len()).filter(|i| s.tasks[*i].runnable && !s.tasks[*i].done && !s.tasks[*i].dropped && s.main != Some(*i)).collect())
    }
    fn alive(&self) -> Vec<usize> {
        self.with(|s| (0..s.tasks.len()).filter(|i| !s.tasks[*i].done && !s.tasks[*i].dropped).collect())
    }
}

struct PTask {
    w: Pw,
    id: usize,
    depth: usize,
    steps: VecDeque<Step>,
    /// Spawns another task when it is dropped.
    on_drop: bool,
    caught: bool,
    _tok: Tok,
    _pin: std::marker::PhantomPinned,
}

impl Future for PTask {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let this = unsafe { self.get_unchecked_mut() };
        let (w, id) = (this.w.clone(), this.id);
        let c = w.case.clone();
        c.step();
        c.log(|| format!("  poll task {id}"));
        w.with(|s| {
            c.check(s.in_call, || "a task was polled while no executor method runs".into());
            c.check(!s.tasks[id].done, || format!("task {id} polled after completion"));
            s.tasks[id].runnable = false;
            s.tasks[id].polls += 1;
        });
        while let Some(step) = this.steps.front().cloned() {
            match step {
                Step::Wait(e) => {
                    let ready = w.with(|s| {
                        if s.evs[e].0 || s.auto {
                            return true;
                        }
                        s.evs[e].1.retain(|(t, _)| *t != id);
                        s.evs[e].1.push((id, cx.waker().clone()));
                        false
                    });
                    if !ready {
                        return Poll::Pending;
                    }
                    this.steps.pop_front();
                }
                Step::Yield(clone) => {
                    this.steps.pop_front();
                    w.with(|s| s.tasks[id].runnable = true);
                    if clone {
                        cx.waker().clone().wake()
                    } else {
                        cx.waker().wake_by_ref()
                    }
                    return Poll::Pending;
                }
                Step::Spawn(how) => {
                    this.steps.pop_front();
                    let evs: Vec<usize> = (0..w.with(|s| s.evs.len())).collect();
                    let t = w.task(this.depth + 1, w.steps(this.depth + 1, &evs));
                    let ok = w.spawn(t, how);
                    c.check(ok, || "spawning from a running task failed".into());
                    c.label("spawn_from_task");
                }
                Step::Fire(e) => {
                    this.steps.pop_front();
                    w.fire(e);
                }
                Step::Stash => {
                    this.steps.pop_front();
                    w.with(|s| s.stash.push(cx.waker().clone()));
                }
                Step::Nested => {
                    this.steps.pop_front();
                    c.label("nested");
                    c.check(enter().is_err(), || "enter() succeeded inside an executor".into());
                    let r = catch_unwind(AssertUnwindSafe(|| block_on(std::future::ready(()))));
                    c.check(r.is_err(), || "a nested block_on was not refused".into());
                    let r = catch_unwind(AssertUnwindSafe(|| LocalPool::new().run_until_stalled()));
                    c.check(r.is_err(), || "a nested pool was not refused".into());
                }
                Step::Panic => {
                    this.steps.clear();
                    c.label("panic");
                    w.with(|s| {
                        s.tasks[id].done = true;
                        // A task with a handle hands its panic over and completes.
                        s.ends += this.caught as usize;
                    });
                    std::panic::panic_any(Injected(99));
                }
            }
        }
        w.with(|s| {
            s.tasks[id].done = true;
            if s.main != Some(id) {
                s.ends += 1
            }
        });
        Poll::Ready(())
    }
}
impl Drop for PTask {
    fn drop(&mut self) {
        let (id, w) = (self.id, self.w.clone());
        w.with(|s| s.tasks[id].dropped = true);
        if self.on_drop && !w.case.failed() {
            w.case.label("spawn_from_drop");
            let t = w.task(9, VecDeque::new());
            let tid = t.id;
            if !w.spawn(t, 0) {
                w.with(|s| w.case.check(s.tasks[tid].dropped, || "refused future was not dropped".into()));
            }
        }
    }
}

fn guarded<R>(w: &Pw, f: impl FnOnce() -> R) -> Option<R> {
    w.with(|s| s.in_call = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    w.with(|s| s.in_call = false);
    match r {
        Ok(r) => Some(r),
        Err(e) if e.downcast_ref::<Injected>().is_some() => {
            w.case.log(|| "the call panicked".into());
            None
        }
        Err(e) => std::panic::resume_unwind(e),
    }
}

fn pool_seq(case: &Case) {
    let w = Pw { case: case.clone(), st: Default::default() };
    let mut pool = if case.bool() { LocalPool::new() } else { LocalPool::default() };
    SPAWNER.with(|s| *s.borrow_mut() = Some(pool.spawner()));
    let evs: Vec<usize> = (0..case.range(0, 4)).map(|_| w.event()).collect();
    let mut calls = 0;
    if case.chance(1, 12) {
        for _ in 0..case.range(30, 70) {
            let t = w.task(5, std::iter::repeat(Step::Yield(false)).take(case.below(2)).collect());
            w.spawn(t, 0);
        }
        case.label("many_tasks");
    }
    let n = case.range(2, 14);
    for _ in 0..n {
        match case.weighted(&[6, 3, 4, 4, 3, 1, 1]) {
            0 => {
                let t = w.task(0, w.steps(0, &evs));
                let ok = w.spawn(t, case.below(4) as u8);
                case.check(ok, || "spawning on a live pool failed".into());
            }
            1 if !evs.is_empty() => w.fire(*case.pick(&evs)),
            2 => {
                let before = w.with(|s| s.ends);
                case.log(|| "try_run_one".into());
                let r = guarded(&w, || pool.try_run_one());
                let done = w.with(|s| s.ends) - before;
                calls += 1;
                match r {
                    Some(true) => case.eq(done, 1, "try_run_one returned true; tasks completed"),
                    Some(false) => {
                        case.eq(done, 0, "try_run_one returned false; tasks completed");
                        let r = w.runnable();
                        case.check(r.is_empty(), || format!("try_run_one gave up although tasks {r:?} can make progress"));
                    }
                    None => {}
                }
            }
            3 => {
                case.log(|| "run_until_stalled".into());
                calls += 1;
                if guarded(&w, || pool.run_until_stalled()).is_some() {
                    let r = w.runnable();
                    case.check(r.is_empty(), || format!("run_until_stalled returned although tasks {r:?} can make progress"));
                }
            }
            4 => {
                // A main future which the pool's tasks have to release.
                let e = w.event();
                let mut main: VecDeque<Step> = (0..case.below(3)).map(|_| Step::Yield(case.bool())).collect();
                if case.chance(2, 3) {
                    main.push_back(Step::Wait(e));
                    let mut s: VecDeque<Step> = (0..case.below(4)).map(|_| Step::Yield(case.bool())).collect();
                    s.push_back(Step::Fire(e));
                    let t = w.task(5, s);
                    w.spawn(t, case.below(4) as u8);
                }
                let mut t = w.task(5, main);
                t.on_drop = false;
                let id = t.id;
                w.with(|s| s.main = Some(id));
                case.log(|| format!("run_until task {id}"));
                calls += 1;
                if guarded(&w, || pool.run_until(t)).is_some() {
                    w.with(|s| case.check(s.tasks[id].done, || "run_until returned before its future was done".into()));
                }
                w.with(|s| s.main = None);
            }
            5 => {
                // All tasks to completion; whatever they wait for is there.
                case.log(|| "run".into());
                calls += 1;
                w.with(|s| s.auto = true);
                for e in 0..w.with(|s| s.evs.len()) {
                    w.fire(e);
                }
                for _ in 0..50 {
                    if guarded(&w, || pool.run()).is_some() {
                        let a = w.alive();
                        case.check(a.is_empty(), || format!("run returned with unfinished tasks {a:?}"));
                        break;
                    }
                }
            }
            6 => {
                let ws = w.with(|s| std::mem::take(&mut s.stash));
                for x in ws {
                    x.wake();
                }
            }
            _ => {}
        }
        case.check(enter().is_ok(), || "the thread is still marked as inside an executor".into());
        // Finished tasks are gone.
        w.with(|s| {
            for (i, t) in s.tasks.iter().enumerate() {
                case.check(!t.done || t.dropped, || format!("task {i} is done and not dropped"));
            }
        });
    }
    if calls >= 2 && w.with(|s| s.tasks.len()) >= 2 {
        case.nontrivial();
    }
    if case.bool() {
        let ws = w.with(|s| std::mem::take(&mut s.stash));
        drop(pool);
        for x in ws {
            x.wake();
        }
    } else {
        drop(pool);
    }
    let a = w.alive();
    case.check(a.is_empty(), || format!("tasks {a:?} outlived the pool"));
    let t = w.task(9, VecDeque::new());
    let id = t.id;
    let ok = w.spawn(t, case.below(4) as u8);
    case.check(!ok, || "spawning on a dropped pool succeeded".into());
    w.with(|s| case.check(s.tasks[id].dropped, || "refused future was not dropped".into()));
    SPAWNER.with(|s| *s.borrow_mut() = None);
    let st = w.with(|s| (std::mem::take(&mut s.evs), std::mem::take(&mut s.stash)));
    drop(st);
    case.no_leaks("local pool");
}

/// Yields the numbers of the events as they fire.
struct EvStream {
    case: Case,
    evs: Evs,
    at: usize,
    end: usize,
    eat: bool,
}
impl Stream for EvStream {
    type Item = usize;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<usize>> {
        self.case.check(self.at <= self.end, || "polled after the end".into());
        if self.eat {
            eat_token();
        }
        if self.at == self.end {
            self.at += 1;
            return Poll::Ready(None);
        }
        let need = self.at + 1;
        match self.evs.poll(need, cx) {
            Poll::Ready(()) => {
                self.at += 1;
                Poll::Ready(Some(self.at))
            }
            Poll::Pending => Poll::Pending,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.end.saturating_sub(self.at);
        (n, Some(n))
    }
}

/// Uses up the thread's park token when polled.
struct Eater<F>(F);
impl<F: Future + Unpin> Future for Eater<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let r = Pin::new(&mut self.0).poll(cx);
        pt();
        eat_token();
        r
    }
}

fn exec_threads(case: &Case) {
    let evs = Evs::new();
    let total = case.range(1, 3);
    let mode = case.below(4);
    let eat = case.bool();
    let n = case.range(1, 3);
    let (e2, c2) = (evs.clone(), case.clone());
    let mut needs: Vec<usize> = (0..n).map(|_| case.range(0, total)).collect();
    needs[0] = needs[0].max(1);
    let mut bodies: Vec<(String, Body)> = vec![(
        "executor".into(),
        body(move |th| {
            let fut = |i: usize| -> Pin<Box<dyn Future<Output = usize>>> {
                let f = Box::pin(TFut::new(&c2, &e2, needs[i], i));
                if eat {
                    Box::pin(Eater(f))
                } else {
                    f
                }
            };
            match mode {
                0 => {
                    let v = block_on(futures::future::join_all((0..n).map(fut)));
                    th.check(v == (0..n).collect::<Vec<_>>(), || format!("block_on returned {v:?}"));
                }
                1 => {
                    let mut pool = LocalPool::new();
                    let done = Rc::new(RefCell::new(vec![]));
                    for i in 0..n {
                        let d = done.clone();
                        let f = fut(i);
                        pool.spawner().spawn_local(f.map(move |i| d.borrow_mut().push(i))).unwrap();
                    }
                    pool.run();
                    let mut d = done.borrow().clone();
                    d.sort();
                    th.check(d == (0..n).collect::<Vec<_>>(), || format!("run completed {d:?}"));
                }
                2 => {
                    let mut pool = LocalPool::new();
                    let hs: Vec<RemoteHandle<usize>> = (1..n).map(|i| pool.spawner().spawn_local_with_handle(fut(i)).unwrap()).collect();
                    let v = pool.run_until(futures::future::join(fut(0), futures::future::join_all(hs)));
                    th.check(v == (0, (1..n).collect()), || format!("run_until returned {v:?}"));
                }
                _ => {
                    let s = EvStream { case: c2.clone(), evs: e2.clone(), at: 0, end: total, eat };
                    let mut b = block_on_stream(s);
                    let mut v: Vec<usize> = vec![];
                    for _ in 0..th.below(3).min(total) {
                        th.check(b.size_hint() == Stream::size_hint(&*b), || "bounds of the blocking iterator".into());
                        v.extend(b.next());
                        th.check(b.at == v.last().copied().unwrap_or(0), || "the stream behind the iterator".into());
                    }
                    if th.below(2) == 0 {
                        (*b).eat = false;
                        v.extend(block_on_stream(b.into_inner()));
                    } else {
                        v.extend(b);
                    }
                    th.check(v == (1..=total).collect::<Vec<_>>(), || format!("blocking stream yielded {v:?}"));
                }
            }
            th.check(enter().is_ok(), || "still inside an executor".into());
        }),
    )];
    let split = case.range(0, total);
    for (k, cnt) in [split, total - split].into_iter().enumerate() {
        let e = evs.clone();
        bodies.push((
            format!("events{k}"),
            body(move |th| {
                for _ in 0..cnt {
                    th.point();
                    e.fire();
                }
            }),
        ));
    }
    case.nontrivial();
    par::run(case, bodies);
    evs.0.lock().unwrap().1.clear();
    case.no_leaks("executor");
}

// ------------------------------------------------------------------ C21

/// What the workers of a pool did.
#[derive(Default)]
struct Hist {
    started: Vec<usize>,
    stopped: Vec<usize>,
    done: usize,
    spawned: usize,
}

struct PoolTask {
    f: Pin<Box<TFut<()>>>,
    case: Case,
    hist: Arc<Mutex<Hist>>,
    pool: Option<ThreadPool>,
    evs: Evs,
    yields: usize,
    children: usize,
    ended: Arc<AtomicBool>,
}

fn worker_check(case: &Case, hist: &Mutex<Hist>) {
    let name = std::thread::current().name().unwrap_or("").to_string();
    let idx = name.strip_prefix("wk-").and_then(|s| s.parse::<usize>().ok());
    let Some(idx) = idx else { case.fail(format!("a task runs on thread {name:?}, no worker of the pool")) };
    let h = hist.lock().unwrap();
    case.check(h.started.contains(&idx), || format!("worker {idx} runs a task before its start hook"));
    case.check(!h.stopped.contains(&idx), || format!("worker {idx} runs a task after its stop hook"));
}

impl Future for PoolTask {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        worker_check(&self.case, &self.hist);
        self.case.check(enter().is_err(), || "a worker thread is not marked as inside an executor".into());
        if self.yields > 0 {
            self.yields -= 1;
            if self.f.w.polls.load(Relaxed) % 2 == 0 {
                cx.waker().wake_by_ref();
            } else {
                cx.waker().clone().wake();
            }
            pt();
            // Polled all the same, for the checks of the leaf.
            if self.f.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
        } else {
            futures::ready!(self.f.as_mut().poll(cx));
        }
        if self.children > 0 {
            self.children -= 1;
            let pool = self.pool.clone().unwrap();
            self.hist.lock().unwrap().spawned += 1;
            let c = mk_task(&self.case, &self.hist, &self.evs, 0, 0, None);
            pool.spawn_ok(c);
        }
        self.hist.lock().unwrap().done += 1;
        self.ended.store(true, Relaxed);
        Poll::Ready(())
    }
}

fn mk_task(case: &Case, hist: &Arc<Mutex<Hist>>, evs: &Evs, need: usize, yields: usize, pool: Option<&ThreadPool>) -> PoolTask {
    PoolTask {
        f: Box::pin(TFut::new(case, evs, need, ())),
        case: case.clone(),
        hist: hist.clone(),
        children: pool.is_some() as usize,
        pool: pool.cloned(),
        evs: evs.clone(),
        yields,
        ended: Default::default(),
    }
}

fn thread_pool(case: &Case) {
    let hist: Arc<Mutex<Hist>> = Default::default();
    let evs = Evs::new();
    let size = case.range(1, 3);
    let total = case.range(0, 2);
    let n = case.range(1, 3);
    // per task: need, yields, child, how
    let plan: Vec<(usize, usize, bool, usize)> =
        (0..n).map(|_| (case.range(0, total), case.below(3), case.chance(1, 4), case.weighted(&[4, 2, 2, 1, 1, 1]))).collect();
    let early_drop = case.bool();
    let clones = case.below(2);
    let stack = case.chance(1, 4);
    let (h2, e2, c2) = (hist.clone(), evs.clone(), case.clone());
    let mut bodies: Vec<(String, Body)> = vec![(
        "main".into(),
        body(move |th| {
            let mut b = ThreadPool::builder();
            let (ha, hb) = (h2.clone(), h2.clone());
            let (ca, cb) = (c2.clone(), c2.clone());
            b.pool_size(size)
                .name_prefix("wk-")
                .after_start(move |i| {
                    let mut h = ha.lock().unwrap();
                    ca.check(!h.started.contains(&i) && i < size, || format!("start hook for worker {i}"));
                    h.started.push(i);
                })
                .before_stop(move |i| {
                    let mut h = hb.lock().unwrap();
                    cb.check(h.started.contains(&i) && !h.stopped.contains(&i), || format!("stop hook for worker {i}"));
                    h.stopped.push(i);
                });
            if stack {
                b.stack_size(1 << 20);
            }
            let pool = par::pool(|| b.create().unwrap());
            drop(b);
            let extra: Vec<ThreadPool> = (0..clones).map(|_| pool.clone()).collect();
            let mut handles = vec![];
            for (need, yields, child, how) in plan {
                h2.lock().unwrap().spawned += 1;
                let t = mk_task(&c2, &h2, &e2, need, yields, child.then_some(&pool));
                match how {
                    0 => pool.spawn_ok(t),
                    1 => pool.spawn(t).unwrap(),
                    2 => {
                        let c3 = c2.tok(7);
                        handles.push(pool.spawn_with_handle(t.map(move |()| c3)).unwrap())
                    }
                    3 => {
                        // The handle is dropped: the task may be cancelled.
                        let ended = t.ended.clone();
                        let _ = ended;
                        let h = h2.clone();
                        h.lock().unwrap().spawned -= 1;
                        let t = CountOnly(t, h);
                        drop(pool.spawn_with_handle(t).unwrap());
                    }
                    4 => pool.spawn_with_handle(t).unwrap().forget(),
                    _ => pool.spawn_obj(FutureObj::new(Box::new(t))).unwrap(),
                }
                th.point();
            }
            if early_drop {
                drop(pool);
                for h in handles {
                    let v = th.block_on(h);
                    th.check(v.v == 7, || "handle value".into());
                }
            } else {
                for h in handles {
                    let v = th.block_on(h);
                    th.check(v.v == 7, || "handle value".into());
                }
                drop(pool);
            }
            drop(extra);
            if cfg!(miri) {
                // The workers are nobody's children there: wait for them.
                while h2.lock().unwrap().stopped.len() < size {
                    std::thread::yield_now();
                }
            }
        }),
    )];
    let e = evs.clone();
    bodies.push((
        "events".into(),
        body(move |th| {
            for _ in 0..total {
                th.point();
                e.fire();
            }
        }),
    ));
    par::run(case, bodies);
    let h = hist.lock().unwrap();
    case.eq(h.done, h.spawned, "completed tasks, of those spawned");
    case.eq(h.started.len(), size, "workers started");
    case.eq(h.stopped.len(), size, "workers stopped after the pool was gone and its tasks done");
    if n >= 2 && size >= 2 {
        case.nontrivial();
    }
    drop(h);
    evs.0.lock().unwrap().1.clear();
    if cfg!(miri) {
        let mut k = 0;
        while case.live() > 0 && k < 1000 {
            std::thread::yield_now();
            k += 1;
        }
    }
    case.no_leaks("thread pool");
}

/// What was written before a wake is visible to the poll which it causes.
fn local_publish(case: &Case) {
    let mut bodies: Vec<(String, Body)> = vec![];
    let n = case.range(1, 2);
    let mut fs = vec![];
    let fin: Arc<AtomicUsize> = Default::default();
    for i in 0..n {
        let (f, b) = vh::thr::published(case.bool(), case.below(3), &fin);
        fs.push(f);
        bodies.push((format!("waker{i}"), b));
    }
    let how = case.below(3);
    bodies.push((
        "pool".into(),
        body(move |th| {
            if how == 0 {
                for f in fs {
                    let v = block_on(f);
                    th.check(v == 7, || format!("read {v}, not what was written before the wake"));
                }
                return;
            }
            let mut pool = LocalPool::new();
            let got = std::rc::Rc::new(std::cell::Cell::new(0));
            for f in fs {
                let got = got.clone();
                let case = th.case.clone();
                pool.spawner()
                    .spawn_local(f.map(move |v| {
                        case.check(v == 7, || format!("read {v}, not what was written before the wake"));
                        got.set(got.get() + 1);
                    }))
                    .unwrap();
            }
            if how == 1 {
                pool.run();
            } else {
                let mut idle = 0;
                while got.get() < n && idle < 200 {
                    pool.run_until_stalled();
                    if fin.load(Relaxed) == n {
                        idle += 1;
                    }
                    th.pause();
                }
            }
            th.check(got.get() == n, || "tasks lost".into());
        }),
    ));
    par::run(case, bodies);
    case.nontrivial();
}

/// Blocks threads until all have come.
struct Rendezvous {
    n: usize,
    here: Mutex<usize>,
    cv: std::sync::Condvar,
}
impl Rendezvous {
    fn wait(&self) {
        let mut here = self.here.lock().unwrap();
        *here += 1;
        if *here == self.n {
            self.cv.notify_all();
            #[cfg(futures_verif)]
            vh::sched::wake_key(self as *const _ as usize);
            return;
        }
        #[cfg(futures_verif)]
        {
            drop(here);
            vh::sched::wait_key(self as *const _ as usize);
        }
        #[cfg(not(futures_verif))]
        while *here < self.n {
            here = self.cv.wait(here).unwrap();
        }
    }
}

/// Tasks that block their workers, as many as there are workers at most, wait
/// for one another: they all get to run at the same time.
fn pool_parallel(case: &Case) {
    let size = case.range(2, 4);
    let k = case.range(2, size);
    let hist: Arc<Mutex<Hist>> = Default::default();
    let evs = Evs::new();
    let total = case.below(2);
    // how often each yields before it blocks; the other tasks are ordinary ones
    let plan: Vec<(bool, usize, usize)> = {
        let mut p: Vec<_> = (0..k).map(|_| (true, case.below(2), case.range(0, total))).collect();
        for _ in 0..case.below(3) {
            p.insert(case.below(p.len() + 1), (false, case.below(2), case.range(0, total)));
        }
        p
    };
    let n = plan.len();
    let meet = Arc::new(Rendezvous { n: k, here: Mutex::new(0), cv: Default::default() });
    let stopped = Arc::new(AtomicUsize::new(0));
    let (h2, e2, c2, s2) = (hist.clone(), evs.clone(), case.clone(), stopped.clone());
    let mut bodies: Vec<(String, Body)> = vec![(
        "main".into(),
        body(move |th| {
            let (s3, h3) = (s2.clone(), h2.clone());
            let pool = par::pool(|| ThreadPool::builder()
                .pool_size(size)
                .name_prefix("wk-")
                .after_start(move |i| h3.lock().unwrap().started.push(i))
                .before_stop(move |_| {
                    s3.fetch_add(1, SeqCst);
                })
                .create()
                .unwrap());
            for (blocks, yields, need) in plan {
                h2.lock().unwrap().spawned += 1;
                let t = mk_task(&c2, &h2, &e2, need, yields, None);
                let meet = meet.clone();
                let f = async move {
                    t.await;
                    if blocks {
                        meet.wait();
                    }
                };
                pool.spawn_ok(Box::pin(f));
                th.point();
            }
            drop(pool);
            if cfg!(miri) {
                while s2.load(SeqCst) < size {
                    std::thread::yield_now();
                }
            }
        }),
    )];
    let e = evs.clone();
    bodies.push((
        "events".into(),
        body(move |th| {
            for _ in 0..total {
                th.point();
                e.fire();
            }
        }),
    ));
    par::run(case, bodies);
    case.eq(hist.lock().unwrap().done, n, "tasks that were run");
    case.eq(stopped.load(SeqCst), size, "workers stopped");
    let mut st = std::mem::take(&mut hist.lock().unwrap().started);
    st.sort();
    case.eq(st, (0..size).collect::<Vec<_>>(), "numbers passed to the start hooks");
    evs.0.lock().unwrap().1.clear();
    case.nontrivial();
}

fn pool_publish(case: &Case) {
    let n = case.range(1, 2);
    let size = case.range(1, 2);
    let left = Arc::new(AtomicUsize::new(n));
    let stopped = Arc::new(AtomicUsize::new(0));
    let mut bodies: Vec<(String, Body)> = vec![];
    let mut fs = vec![];
    let fin: Arc<AtomicUsize> = Default::default();
    for i in 0..n {
        let (f, b) = vh::thr::published(case.bool(), case.below(3), &fin);
        fs.push(f);
        bodies.push((format!("waker{i}"), b));
    }
    let (l2, s2) = (left.clone(), stopped.clone());
    bodies.push((
        "main".into(),
        body(move |th| {
            let s3 = s2.clone();
            let pool = par::pool(|| ThreadPool::builder()
                .pool_size(size)
                .before_stop(move |_| {
                    s3.fetch_add(1, SeqCst);
                })
                .create()
                .unwrap());
            for f in fs {
                let l3 = l2.clone();
                let case = th.case.clone();
                pool.spawn_ok(f.map(move |v| {
                    case.check(v == 7, || format!("read {v}, not what was written before the wake"));
                    l3.fetch_sub(1, SeqCst);
                }));
            }
            drop(pool);
            if cfg!(miri) {
                // The workers are nobody's children there: wait for them, but not
                // for ever once all wakes have come.
                let mut idle = 0;
                while s2.load(SeqCst) < size {
                    std::thread::yield_now();
                    if fin.load(Relaxed) == n {
                        idle += 1;
                        th.check(idle < 20_000, || "a woken task was not polled, or not with what was written before the wake".into());
                    }
                }
            }
        }),
    ));
    par::run(case, bodies);
    case.eq(left.load(SeqCst), 0, "tasks of a dropped pool that never completed");
    case.nontrivial();
}

/// A task that may be cancelled: its completion does not count.
struct CountOnly(PoolTask, Arc<Mutex<Hist>>);
impl Future for CountOnly {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let r = Pin::new(&mut self.0).poll(cx);
        if r.is_ready() {
            self.1.lock().unwrap().done -= 1;
        }
        r
    }
}

// ------------------------------------------------------------------ C30

struct Aw {
    case: Case,
    woken: AtomicUsize,
    by_value: AtomicUsize,
    over: bool,
    _tok: Tok,
    _align: Al,
}
#[repr(align(64))]
struct Al(#[allow(unused)] u8);

impl ArcWake for Aw {
    fn wake_by_ref(a: &Arc<Self>) {
        a.woken.fetch_add(1, Relaxed);
    }
    fn wake(self: Arc<Self>) {
        if self.over {
            self.by_value.fetch_add(1, Relaxed);
            self.woken.fetch_add(1, Relaxed);
        } else {
            Self::wake_by_ref(&self)
        }
    }
}

fn wakers(case: &Case) {
    let k = case.range(1, 2);
    let arcs: Vec<Arc<Aw>> = (0..k)
        .map(|i| {
            Arc::new(Aw {
                case: case.clone(),
                woken: 0.into(),
                by_value: 0.into(),
                over: case.bool(),
                _tok: case.tok_kind(i as u64, "waker"),
                _align: Al(0),
            })
        })
        .collect();
    let mut arcs: Vec<Option<Arc<Aw>>> = arcs.into_iter().map(Some).collect();
    let weak: Vec<_> = arcs.iter().map(|a| Arc::downgrade(a.as_ref().unwrap())).collect();
    let mut ws: Vec<(usize, Waker)> = vec![];
    let mut want = vec![0usize; k];
    let check = |ws: &[(usize, Waker)], arcs: &[Option<Arc<Aw>>], want: &[usize]| {
        for i in 0..k {
            let n = ws.iter().filter(|(j, _)| *j == i).count() + arcs[i].is_some() as usize;
            case.eq(weak[i].strong_count(), n, "owners of the wake object");
            if let Some(a) = weak[i].upgrade() {
                case.eq(a.woken.load(Relaxed), want[i], "wakes");
                let _ = &a.case;
            }
        }
        for (i, a) in ws {
            for (j, b) in ws {
                // Best effort in the other direction.
                if i != j {
                    case.check(!a.will_wake(b), || "will_wake between different tasks".into());
                }
            }
        }
    };
    for _ in 0..case.range(1, 25) {
        let i = case.below(k);
        match case.below(9) {
            0 => {
                if let Some(a) = &arcs[i] {
                    case.log(|| format!("waker(arc {i})"));
                    ws.push((i, waker(a.clone())));
                }
            }
            1 if !ws.is_empty() => {
                let j = case.below(ws.len());
                case.log(|| format!("clone waker {j}"));
                let c = (ws[j].0, ws[j].1.clone());
                ws.push(c);
            }
            2 if !ws.is_empty() => {
                let (j, w) = ws.swap_remove(case.below(ws.len()));
                case.log(|| format!("wake arc {j}"));
                want[j] += 1;
                let (o, before) = weak[j].upgrade().map(|a| (a.over, a.by_value.load(Relaxed))).unwrap();
                w.wake();
                if let Some(a) = weak[j].upgrade() {
                    case.eq(a.by_value.load(Relaxed), before + o as usize, "wake by value");
                }
            }
            3 if !ws.is_empty() => {
                let j = case.below(ws.len());
                case.log(|| format!("wake_by_ref {j}"));
                want[ws[j].0] += 1;
                ws[j].1.wake_by_ref();
            }
            4 if !ws.is_empty() => {
                let j = case.below(ws.len());
                case.log(|| format!("drop waker {j}"));
                ws.swap_remove(j);
            }
            5 => {
                if let Some(a) = &arcs[i] {
                    let n = Arc::strong_count(a);
                    let r = waker_ref(a);
                    case.log(|| format!("waker_ref(arc {i})"));
                    case.eq(Arc::strong_count(a), n, "owners while borrowed as a waker");
                    for _ in 0..case.below(4) {
                        match case.below(4) {
                            0 => {
                                r.wake_by_ref();
                                want[i] += 1;
                            }
                            1 => ws.push((i, r.clone())),
                            2 => {
                                r.clone().wake();
                                want[i] += 1;
                            }
                            _ => {
                                let cx = Context::from_waker(&r);
                                cx.waker().wake_by_ref();
                                want[i] += 1;
                            }
                        }
                    }
                    drop(r);
                }
            }
            6 => {
                if case.chance(1, 4) {
                    case.log(|| format!("drop arc {i}"));
                    arcs[i] = None;
                }
            }
            7 => {
                let n = noop_waker();
                n.wake_by_ref();
                drop(n.clone());
                noop_waker_ref().wake_by_ref();
                noop_waker_ref().clone().wake();
                n.wake();
            }
            8 if ws.len() >= 2 => {
                // Replacing a stored waker drops the old one.
                let (a, b) = (case.below(ws.len()), case.below(ws.len()));
                let c = ws[b].1.clone();
                ws[a] = (ws[b].0, c);
            }
            _ => {}
        }
        check(&ws, &arcs, &want);
    }
    if want.iter().sum::<usize>() >= 2 {
        case.nontrivial();
    }
    drop(ws);
    drop(arcs);
    for x in &weak {
        case.eq(x.strong_count(), 0, "owners at the end");
    }
    case.no_leaks("wakers");
}

/// Counts polls; ready after `left` polls.
struct Cf<const N: usize> {
    left: usize,
    v: u64,
    done: Rc<RefCell<(usize, usize)>>,
    addr: usize,
    tok: Option<Tok>,
    case: Case,
    _pad: [u64; N],
    _pin: std::marker::PhantomPinned,
}
impl<const N: usize> Future for Cf<N> {
    type Output = Tok;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Tok> {
        let this = unsafe { self.get_unchecked_mut() };
        let at = this as *mut _ as usize;
        this.case.check(this.addr == 0 || this.addr == at, || "a pinned future was moved".into());
        this.addr = at;
        this.done.borrow_mut().0 += 1;
        cx.waker().wake_by_ref();
        if this.left == 0 {
            Poll::Ready(this.tok.take().unwrap())
        } else {
            this.left -= 1;
            Poll::Pending
        }
    }
}
impl<const N: usize> Drop for Cf<N> {
    fn drop(&mut self) {
        self.done.borrow_mut().1 += 1;
        let _ = self.v;
    }
}
unsafe impl<const N: usize> Send for Cf<N> {}

#[repr(align(128))]
struct Over(Cf<3>);
impl Future for Over {
    type Output = Tok;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Tok> {
        let p = self.as_ref().get_ref() as *const _ as usize;
        assert!(p % 128 == 0, "misaligned future");
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}

fn drive_obj(case: &Case, mut o: LocalFutureObj<'_, Tok>, left: usize, stop: Option<usize>) -> Option<u64> {
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    for i in 0.. {
        if stop == Some(i) {
            return None;
        }
        match Pin::new(&mut o).poll(&mut cx) {
            Poll::Ready(t) => {
                case.eq(i, left, "polls needed");
                return Some(t.v);
            }
            Poll::Pending => case.check(i < left, || "pending too long".into()),
        }
    }
    None
}

fn objs(case: &Case) {
    let left = case.below(4);
    let stop = if case.chance(1, 3) { Some(case.below(4)) } else { None };
    let log = Rc::new(RefCell::new((0, 0)));
    fn mk<const N: usize>(case: &Case, left: usize, log: &Rc<RefCell<(usize, usize)>>) -> Cf<N> {
        Cf { left, v: 3, done: log.clone(), addr: 0, tok: Some(case.tok(3)), case: case.clone(), _pad: [0; N], _pin: std::marker::PhantomPinned }
    }
    let kind = case.below(17);
    let big = case.bool();
    case.log(|| format!("kind {kind} left {left} stop {stop:?} big {big}"));
    if kind >= 11 && kind < 15 {
        // The conversions exist for futures without output.
        let f = mk::<1>(case, left, &log).map(drop);
        let mut o: LocalFutureObj<'_, ()> = match kind {
            11 => Box::new(f).into(),
            12 => Box::pin(f).into(),
            13 => FutureObj::from(Box::new(f)).into(),
            _ => FutureObj::from(Box::pin(f)).into(),
        };
        let w = noop_waker();
        let n = stop.unwrap_or(left + 1).min(left + 1);
        for i in 0..n {
            let r = Pin::new(&mut o).poll(&mut Context::from_waker(&w));
            case.eq(r.is_ready(), i == left, "ready");
        }
        drop(o);
        case.eq(log.borrow().1, 1, "drops of the future");
        case.no_leaks("future objects");
        return;
    }
    let r = match kind {
        0 => drive_obj(case, LocalFutureObj::new(Box::new(mk::<0>(case, left, &log))), left, stop),
        1 => drive_obj(case, LocalFutureObj::new(Box::pin(mk::<40>(case, left, &log))), left, stop),
        2 => drive_obj(case, FutureObj::new(Box::new(mk::<2>(case, left, &log))).into(), left, stop),
        3 => {
            let b: Box<dyn Future<Output = Tok> + Send> = Box::new(mk::<1>(case, left, &log));
            drive_obj(case, FutureObj::new(b).into(), left, stop)
        }
        4 => {
            let b: Pin<Box<dyn Future<Output = Tok> + Send>> = Box::pin(mk::<1>(case, left, &log));
            drive_obj(case, FutureObj::new(b).into(), left, stop)
        }
        5 => {
            let b: Pin<Box<dyn Future<Output = Tok>>> = Box::pin(mk::<1>(case, left, &log));
            drive_obj(case, LocalFutureObj::new(b), left, stop)
        }
        6 => drive_obj(case, LocalFutureObj::new(Box::new(Over(mk::<3>(case, left, &log)))), left, stop),
        7 => {
            // Borrowed: the object must not drop what it borrows.
            let mut f = Box::pin(mk::<1>(case, left, &log));
            let r = drive_obj(case, LocalFutureObj::new(f.as_mut()), left, stop);
            case.eq(log.borrow().1, 0, "drops of a borrowed future");
            if r.is_none() {
                // and it can be driven on afterwards
                let done = stop.unwrap().min(left + 1);
                let r2 = drive_obj(case, LocalFutureObj::new(f.as_mut()), left - done, None);
                case.eq(r2, Some(3), "value after re-borrowing");
            }
            drop(f);
            r
        }
        15 => {
            let mut f = Box::pin(mk::<1>(case, left, &log));
            let r = drive_obj(case, LocalFutureObj::new(&mut f), left, stop);
            case.eq(log.borrow().1, 0, "drops of a borrowed future");
            r
        }
        16 => {
            let mut f = Box::pin(mk::<2>(case, left, &log));
            let d: Pin<&mut dyn Future<Output = Tok>> = f.as_mut();
            let r = drive_obj(case, LocalFutureObj::new(d), left, stop);
            case.eq(log.borrow().1, 0, "drops of a borrowed future");
            r
        }
        8 => {
            let f = mk::<1>(case, left, &log);
            let o = unsafe { LocalFutureObj::new(Box::new(f)).into_future_obj() };
            drive_obj(case, o.into(), left, stop)
        }
        9 => {
            let mut f: Box<dyn Future<Output = Tok> + Unpin> = Box::new(Box::pin(mk::<1>(case, left, &log)));
            let o: &mut (dyn Future<Output = Tok> + Unpin) = &mut *f;
            let r = drive_obj(case, LocalFutureObj::new(o), left, stop);
            case.eq(log.borrow().1, 0, "drops of a borrowed future");
            r
        }
        _ => {
            let b: Box<dyn Future<Output = Tok>> = Box::new(mk::<1>(case, left, &log));
            drive_obj(case, LocalFutureObj::new(b), left, stop)
        }
    };
    match stop {
        Some(s) if s <= left => case.eq(r, None, "output"),
        _ => {
            case.eq(r, Some(3), "output");
            case.nontrivial()
        }
    }
    case.eq(log.borrow().1, 1, "drops of the future");
    case.no_leaks("future objects");
}

/// A spawner that records what it gets and may be shut down.
#[derive(Default)]
struct Rec {
    got: RefCell<Vec<LocalFutureObj<'static, ()>>>,
    down: std::cell::Cell<bool>,
}
impl Spawn for Rec {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        self.status()?;
        self.got.borrow_mut().push(f.into());
        Ok(())
    }
    fn status(&self) -> Result<(), SpawnError> {
        if self.down.get() {
            Err(SpawnError::shutdown())
        } else {
            Ok(())
        }
    }
}
impl LocalSpawn for Rec {
    fn spawn_local_obj(&self, f: LocalFutureObj<'static, ()>) -> Result<(), SpawnError> {
        self.status_local()?;
        self.got.borrow_mut().push(f);
        Ok(())
    }
    fn status_local(&self) -> Result<(), SpawnError> {
        self.status()
    }
}

struct Plain<'a>(&'a Rec);
impl Spawn for Plain<'_> {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        self.0.spawn_obj(f)
    }
}
impl LocalSpawn for Plain<'_> {
    fn spawn_local_obj(&self, f: LocalFutureObj<'static, ()>) -> Result<(), SpawnError> {
        self.0.spawn_local_obj(f)
    }
}

struct Note(Arc<AtomicUsize>, #[allow(unused)] Tok);
impl Future for Note {
    type Output = u8;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u8> {
        self.0.fetch_add(1, Relaxed);
        Poll::Ready(4)
    }
}

fn spawners(case: &Case) {
    let rec = Rc::new(Rec::default());
    let n = case.range(1, 8);
    let ran = Arc::new(AtomicUsize::new(0));
    let (mut accepted, mut handles) = (0, vec![]);
    fn go<S: Spawn + LocalSpawn + ?Sized>(
        s: &S,
        how: usize,
        f: Note,
        handles: &mut Vec<RemoteHandle<u8>>,
    ) -> (Result<(), SpawnError>, Result<(), SpawnError>) {
        let st = if how % 2 == 0 { s.status_local() } else { s.status() };
        let r = match how {
            0 => s.spawn_local(f.map(drop)),
            1 => s.spawn(f.map(drop)),
            2 => s.spawn_local_with_handle(f).map(|h| handles.push(h)),
            3 => s.spawn_with_handle(f).map(|h| handles.push(h)),
            4 => s.spawn_local_obj(LocalFutureObj::new(Box::new(f.map(drop)))),
            _ => s.spawn_obj(FutureObj::new(Box::new(f.map(drop)))),
        };
        (st, r)
    }
    for i in 0..n {
        if case.chance(1, 6) {
            case.log(|| "toggle shutdown".into());
            rec.down.set(!rec.down.get());
        }
        let how = case.below(6);
        let through = case.below(6);
        let before = rec.got.borrow().len();
        let live = case.live();
        let f = Note(ran.clone(), case.tok_kind(i as u64, "spawned"));
        case.log(|| format!("spawn how {how} through {through} down {}", rec.down.get()));
        let mut r0: &Rec = &rec;
        let (st, r) = match through {
            0 => go(&*rec, how, f, &mut handles),
            1 => go(&rec, how, f, &mut handles),
            2 => go(&Box::new(r0), how, f, &mut handles),
            // a spawner that leaves the status to the default
            5 => {
                let d = Plain(&rec);
                case.check(d.status().is_ok() && d.status_local().is_ok(), || "default status".into());
                (if rec.down.get() { Err(SpawnError::shutdown()) } else { Ok(()) }, go(&d, how, f, &mut handles).1)
            }
            3 => go(&&&*rec, how, f, &mut handles),
            _ => go(&&mut r0, how, f, &mut handles),
        };
        case.eq(st.is_err(), rec.down.get(), "status reports shutdown");
        case.eq(r.is_err(), rec.down.get(), "spawn reports shutdown");
        if let Err(e) = r {
            case.check(e.is_shutdown() && st.unwrap_err().is_shutdown(), || "no shutdown error".into());
            case.eq(case.live(), live, "futures kept after a refused spawn");
            case.eq(rec.got.borrow().len(), before, "futures handed over by a refused spawn");
        } else {
            case.eq(rec.got.borrow().len(), before + 1, "futures handed over");
            accepted += 1;
        }
    }
    let got: Vec<_> = rec.got.borrow_mut().drain(..).collect();
    let w = noop_waker();
    let run = case.bool();
    for mut f in got {
        if run {
            case.check(Pin::new(&mut f).poll(&mut Context::from_waker(&w)).is_ready(), || "a spawned future is pending".into());
        }
    }
    if run {
        case.eq(ran.load(Relaxed), accepted, "spawned futures run");
        for mut h in handles {
            case.check(matches!(h.poll_unpin(&mut Context::from_waker(&w)), Poll::Ready(4)), || "handle value".into());
        }
    } else {
        drop(handles);
    }
    if accepted >= 2 {
        case.nontrivial();
    }
    case.no_leaks("spawners");
}

fn main() {
    main_for(vec![
        Prop {
            id: "C20",
            rule: "pool_seq: histories of spawning, firing events and calling run_until_stalled / try_run_one / run_until / run on one local pool, with tasks that yield, wait, fire, spawn, nest executors and panic; threads: block_on, run, run_until and block_on_stream on one controlled thread with wakes from two others, also with user code using up the thread's park token. Non-trivial: two executor calls and two tasks (pool_seq); all (threads).",
            subs: vec![
                sub("pool_seq", pool_seq, 2_000_000, 20_000_000).miri(32, 1000),
                sub("publish", local_publish, 10_000, 100_000).miri(48, 1500),
                sub("threads", exec_threads, 100_000, 2_500_000).miri(48, 2000),
            ],
        },
        Prop {
            id: "C21",
            rule: "pool: 1-3 workers as controlled threads, 1-3 tasks (waiting for events, waking themselves, spawning others; with and without handles, dropped or forgotten), events from another thread, the pool handle dropped before or after; parallel: 2-4 workers and as many tasks at most that block their workers until all of them are there, with ordinary tasks in between; publish: plain data written before a wake. Non-trivial: two tasks and two workers (pool), all others.",
            subs: vec![
                sub("pool", thread_pool, 60_000, 1_500_000).miri(48, 1500),
                sub("parallel", pool_parallel, 10_000, 400_000).miri(16, 600),
                sub("publish", pool_publish, 10_000, 100_000).miri(48, 1500),
            ],
        },
        Prop {
            id: "C30",
            rule: "wakers: histories of creating, borrowing, cloning, waking and dropping wakers of reference-counted wake objects; objs: boxed, pinned, borrowed, over-aligned futures as (local) future objects, run to the end or dropped midway; spawners: all spawn methods through all pointer types on a recording spawner with shutdowns. Non-trivial: two wakes / run to completion / two accepted.",
            subs: vec![
                sub("wakers", wakers, 1_500_000, 15_000_000).miri(48, 1000),
                sub("objs", objs, 1_500_000, 15_000_000).miri(64, 1000),
                sub("spawners", spawners, 1_000_000, 10_000_000).miri(32, 500),
            ],
        },
    ]);
}
