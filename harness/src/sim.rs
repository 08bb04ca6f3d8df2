//! A single-threaded world: tasks that are polled only when woken (through the
//! waker of their latest poll), and external events that fire in generated order.
use crate::case::Case;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

/// Wake state of a task: only the waker of the latest poll counts.
#[derive(Default)]
pub struct Flag {
    current: AtomicU64,
    woken: AtomicBool,
    pub total: AtomicU64,
    pub stale: AtomicU64,
}

struct W {
    flag: Arc<Flag>,
    gen: u64,
}

impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.flag.total.fetch_add(1, SeqCst);
        if self.flag.current.load(SeqCst) == self.gen {
            self.flag.woken.store(true, SeqCst);
        } else {
            self.flag.stale.fetch_add(1, SeqCst);
        }
    }
}

/// The waker side of one task.
pub struct Poller {
    pub case: Case,
    pub flag: Arc<Flag>,
    waker: Option<Waker>,
    pub polls: u64,
    /// Whether a fresh waker may replace the last one between polls.
    pub change_wakers: bool,
}

impl Poller {
    pub fn new(case: &Case) -> Self {
        let p = Poller { case: case.clone(), flag: Arc::new(Flag::default()), waker: None, polls: 0, change_wakers: true };
        p.flag.woken.store(true, SeqCst);
        p
    }
    pub fn woken(&self) -> bool {
        self.flag.woken.load(SeqCst)
    }
    pub fn set_woken(&self) {
        self.flag.woken.store(true, SeqCst)
    }
    fn fresh(&mut self) {
        let gen = self.flag.current.fetch_add(1, SeqCst) + 1;
        self.waker = Some(Waker::from(Arc::new(W { flag: self.flag.clone(), gen })));
    }
    pub fn poll_cx<R>(&mut self, f: impl FnOnce(&mut Context<'_>) -> R) -> R {
        self.case.step();
        if self.waker.is_none() || (self.change_wakers && self.case.chance(1, 3)) {
            self.fresh();
        }
        self.flag.woken.store(false, SeqCst);
        self.polls += 1;
        let w = self.waker.clone().unwrap();
        f(&mut Context::from_waker(&w))
    }
    /// Polls; after `Ready` the task is runnable again.
    pub fn poll<T>(&mut self, f: impl FnOnce(&mut Context<'_>) -> Poll<T>) -> Poll<T> {
        let r = self.poll_cx(f);
        if r.is_ready() {
            self.set_woken();
        }
        r
    }
}

struct EvState {
    fired: bool,
    waiting: bool,
    waker: Option<Waker>,
    name: &'static str,
}

/// External events.
#[derive(Clone)]
pub struct World {
    pub case: Case,
    evs: Arc<Mutex<Vec<EvState>>>,
}

#[derive(Clone)]
pub struct Ev {
    world: World,
    pub id: usize,
}

impl World {
    pub fn new(case: &Case) -> Self {
        World { case: case.clone(), evs: Arc::new(Mutex::new(vec![])) }
    }
    pub fn event(&self, name: &'static str) -> Ev {
        let mut g = self.evs.lock().unwrap();
        g.push(EvState { fired: false, waiting: false, waker: None, name });
        Ev { world: self.clone(), id: g.len() - 1 }
    }
    /// Events somebody waits for and which have not fired.
    pub fn waiting(&self) -> Vec<usize> {
        let g = self.evs.lock().unwrap();
        (0..g.len()).filter(|i| g[*i].waiting && !g[*i].fired).collect()
    }
    /// All unfired events, waited for or not.
    pub fn unfired(&self) -> Vec<usize> {
        let g = self.evs.lock().unwrap();
        (0..g.len()).filter(|i| !g[*i].fired).collect()
    }
    pub fn fire(&self, id: usize) {
        let (w, name) = {
            let mut g = self.evs.lock().unwrap();
            g[id].fired = true;
            (g[id].waker.take(), g[id].name)
        };
        self.case.log(|| format!("fire event {id} ({name}){}", if w.is_some() { "" } else { " [nobody waits]" }));
        if let Some(w) = w {
            // Both ways to wake are in use by real event sources.
            if self.case.bool() {
                w.wake_by_ref();
                drop(w);
            } else {
                w.wake();
            }
        }
    }
    pub fn fire_some(&self) -> bool {
        let w = self.waiting();
        if w.is_empty() {
            return false;
        }
        self.fire(w[self.case.below(w.len())]);
        true
    }
    /// Drops all stored wakers (which may keep tasks alive).
    pub fn clear(&self) {
        let v: Vec<_> = self.evs.lock().unwrap().iter_mut().filter_map(|e| e.waker.take()).collect();
        drop(v);
    }
}

impl Ev {
    pub fn fired(&self) -> bool {
        self.world.evs.lock().unwrap()[self.id].fired
    }
    pub fn poll(&self, cx: &mut Context<'_>) -> Poll<()> {
        let old;
        let r = {
            let mut g = self.world.evs.lock().unwrap();
            let e = &mut g[self.id];
            if e.fired {
                e.waiting = false;
                old = None;
                Poll::Ready(())
            } else {
                e.waiting = true;
                old = e.waker.replace(cx.waker().clone());
                Poll::Pending
            }
        };
        drop(old);
        r
    }
    /// Nobody waits any more (the waiter was dropped).
    pub fn forget(&self) {
        let w = {
            let mut g = self.world.evs.lock().unwrap();
            g[self.id].waiting = false;
            g[self.id].waker.take()
        };
        drop(w);
    }
}

impl Future for Ev {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        Ev::poll(&self, cx)
    }
}

/// Runs `poll` until it is ready: polls only when woken (plus, by choice,
/// spuriously), fires events otherwise. A stall is a lost wakeup.
pub fn drive<T>(p: &mut Poller, world: &World, what: &str, mut poll: impl FnMut(&mut Context<'_>) -> Poll<T>) -> T {
    let case = p.case.clone();
    loop {
        let w = world.waiting();
        let woken = p.woken();
        if woken && (w.is_empty() || !case.chance(1, 3)) {
            if let Poll::Ready(t) = p.poll(&mut poll) {
                return t;
            }
        } else if !w.is_empty() {
            if !woken && case.chance(1, 8) {
                case.label("spurious_poll");
                if let Poll::Ready(t) = p.poll(&mut poll) {
                    return t;
                }
            } else {
                world.fire(w[case.below(w.len())]);
            }
        } else {
            case.fail(format!("{what}: stalled, the task is pending, every event has fired and nothing woke it (lost wakeup)"))
        }
    }
}

/// `drive` with a bound on events and polls, so that the caller can drop the
/// task midway. `None`: the bound was reached first.
pub fn drive_some<T>(
    p: &mut Poller,
    world: &World,
    what: &str,
    mut budget: usize,
    mut poll: impl FnMut(&mut Context<'_>) -> Poll<T>,
) -> Option<T> {
    let case = p.case.clone();
    while budget > 0 {
        budget -= 1;
        let w = world.waiting();
        if p.woken() && (w.is_empty() || !case.chance(1, 3)) {
            if let Poll::Ready(t) = p.poll(&mut poll) {
                return Some(t);
            }
        } else if !w.is_empty() {
            world.fire(w[case.below(w.len())]);
        } else {
            case.fail(format!("{what}: stalled (lost wakeup)"))
        }
    }
    None
}

/// Several tasks in one world, interleaved by generated choices.
pub struct Sim<'a> {
    pub case: Case,
    pub world: World,
    tasks: Vec<(String, Option<Pin<Box<dyn Future<Output = ()> + 'a>>>, Poller)>,
    /// Out of 16: how often a task is polled without having been woken.
    pub spurious: usize,
}

impl<'a> Sim<'a> {
    pub fn new(case: &Case) -> Self {
        Sim { case: case.clone(), world: World::new(case), tasks: vec![], spurious: 1 }
    }
    pub fn spawn(&mut self, name: impl Into<String>, f: impl Future<Output = ()> + 'a) {
        self.tasks.push((name.into(), Some(Box::pin(f)), Poller::new(&self.case)));
    }
    pub fn runnable(&self) -> Vec<usize> {
        (0..self.tasks.len()).filter(|i| self.tasks[*i].1.is_some() && self.tasks[*i].2.woken()).collect()
    }
    pub fn unfinished(&self) -> Vec<usize> {
        (0..self.tasks.len()).filter(|i| self.tasks[*i].1.is_some()).collect()
    }
    pub fn name(&self, i: usize) -> &str {
        &self.tasks[i].0
    }
    pub fn poll(&mut self, i: usize) -> bool {
        let t = &mut self.tasks[i];
        let f = t.1.as_mut().unwrap();
        let name = &t.0;
        self.case.log(|| format!("poll task {name}"));
        if t.2.poll(|cx| f.as_mut().poll(cx)).is_ready() {
            let name = &t.0;
            self.case.log(|| format!("task {name} done"));
            t.1 = None;
            true
        } else {
            false
        }
    }
    pub fn cancel(&mut self, i: usize) {
        let name = self.tasks[i].0.clone();
        self.case.log(|| format!("drop task {name}"));
        self.tasks[i].1 = None;
    }
    /// One step; false when nothing can happen.
    pub fn step(&mut self) -> bool {
        let run = self.runnable();
        let evs = self.world.waiting();
        let n = run.len() + evs.len();
        if n == 0 {
            return false;
        }
        if self.spurious > 0 && self.case.chance(self.spurious, 16) {
            let u = self.unfinished();
            if !u.is_empty() {
                let i = u[self.case.below(u.len())];
                self.poll(i);
                return true;
            }
        }
        let k = self.case.below(n);
        if k < run.len() {
            self.poll(run[k]);
        } else {
            self.world.fire(evs[k - run.len()]);
        }
        true
    }
    /// Runs until every task is done; a stall before that is a failure.
    pub fn run(&mut self, what: &str) {
        while !self.unfinished().is_empty() {
            if !self.step() {
                let names: Vec<String> = self.unfinished().iter().map(|i| self.tasks[*i].0.clone()).collect();
                self.case.fail(format!("{what}: stalled with unfinished tasks {names:?} (lost wakeup)"));
            }
        }
    }
    /// Runs until nothing can happen.
    pub fn run_until_stalled(&mut self) {
        while !self.unfinished().is_empty() && self.step() {}
    }
}
