//! Controlled scheduler: one OS thread of a case runs at a time, and every
//! hooked operation of the library is a point at which the tape may switch.
use crate::case::{Case, Failed, Inconclusive};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex, MutexGuard, Once};
use std::thread::ThreadId;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Run,
    Blocked(usize),
    Parked,
    WaitWaker,
    Done,
}

struct T {
    name: String,
    status: Status,
    token: bool,
    woken: bool,
    gen: u64,
    cv: Arc<Condvar>,
    id: Option<ThreadId>,
}

struct St {
    threads: Vec<T>,
    current: usize,
    steps: u64,
    limit: u64,
    den: usize,
    switches: u64,
    over: bool,
}

pub struct Sched {
    case: Case,
    st: Mutex<St>,
    done: Condvar,
}

thread_local! {
    /// A thread of the harness.
    static KNOWN: Cell<bool> = const { Cell::new(false) };
    static CUR: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

fn cur() -> Option<(Arc<Sched>, usize)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}

struct Hook;

impl futures_core::__verif::Scheduler for Hook {
    fn active(&self) -> bool {
        let on = CUR.try_with(|c| c.borrow().is_some()).unwrap_or(false);
        if !on && !KNOWN.try_with(|k| k.get()).unwrap_or(true) {
            SAW_FOREIGN.store(true, Relaxed);
        }
        on
    }
    fn point(&self) {
        if let Some((s, me)) = cur() {
            s.point(me)
        }
    }
    fn yield_now(&self) {
        if let Some((s, me)) = cur() {
            s.yield_now(me)
        }
    }
    fn block(&self, key: usize) {
        if let Some((s, me)) = cur() {
            s.block(me, Status::Blocked(key))
        }
    }
    fn unblock(&self, key: usize) {
        if let Some((s, _)) = cur() {
            let mut st = s.lock();
            for t in &mut st.threads {
                if t.status == Status::Blocked(key) {
                    t.status = Status::Run
                }
            }
        }
    }
    fn park(&self) {
        if let Some((s, me)) = cur() {
            s.point(me);
            let token = std::mem::replace(&mut s.lock().threads[me].token, false);
            if !token {
                s.block(me, Status::Parked);
                s.lock().threads[me].token = false;
            }
        }
    }
    fn unpark(&self, th: &std::thread::Thread) -> bool {
        let Some((s, _)) = cur() else { return false };
        let mut st = s.lock();
        for t in &mut st.threads {
            if t.id == Some(th.id()) {
                t.token = true;
                if t.status == Status::Parked {
                    t.status = Status::Run
                }
                return true;
            }
        }
        false
    }
    fn spawn(&self, name: Option<String>, f: Box<dyn FnOnce() + Send>) {
        let (s, me) = cur().expect("spawn on a controlled thread");
        s.add(name.unwrap_or_else(|| "spawned".into()), f);
        s.point(me);
    }
}

/// Cases in which something went on that the scheduler does not see, such as a
/// thread or a lock of the library that is not hooked. They give no verdict,
/// and after some of them the controlled runs are given up. (Miri still runs
/// the threads.)
static FOREIGN: AtomicUsize = AtomicUsize::new(0);
/// A thread that is neither controlled nor one of the harness runs library code.
static SAW_FOREIGN: AtomicBool = AtomicBool::new(false);

/// A new kind of case begins.
pub fn reset() {
    FOREIGN.store(0, Relaxed);
    SAW_FOREIGN.store(false, Relaxed);
}

pub fn known() {
    KNOWN.with(|k| k.set(true));
}

/// Deadlocks that nobody outside resolved.
static CONFIRMED: AtomicUsize = AtomicUsize::new(0);

impl Sched {
    fn foreign(&self, st: &mut MutexGuard<'_, St>) {
        self.case.with(|i| (i.foreign, i.inconclusive) = (true, true));
        FOREIGN.fetch_add(1, Relaxed);
        self.stop(st);
    }

    fn lock(&self) -> MutexGuard<'_, St> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Lets `next` run and waits for the turn of `me`.
    fn hand_over(&self, mut st: MutexGuard<'_, St>, me: usize, next: usize) {
        if next == me {
            return;
        }
        st.switches += 1;
        st.current = next;
        st.threads[next].cv.notify_one();
        let cv = st.threads[me].cv.clone();
        while st.current != me || st.over {
            st = cv.wait(st).unwrap_or_else(|e| e.into_inner());
        }
    }

    fn others(st: &St, me: usize) -> Vec<usize> {
        (0..st.threads.len()).filter(|i| *i != me && st.threads[*i].status == Status::Run).collect()
    }

    fn count(&self, st: &mut MutexGuard<'_, St>, me: usize) -> bool {
        st.steps += 1;
        if st.steps > st.limit {
            // No verdict: abandon the case.
            self.case.with(|i| i.inconclusive = true);
            self.stop(st);
            let cv = st.threads[me].cv.clone();
            let _ = cv;
            return false;
        }
        true
    }

    fn stop(&self, st: &mut MutexGuard<'_, St>) {
        st.over = true;
        self.done.notify_all();
    }

    /// The case is over and this thread is abandoned.
    fn never(&self, me: usize, mut st: MutexGuard<'_, St>) -> ! {
        let cv = st.threads[me].cv.clone();
        loop {
            st = cv.wait(st).unwrap_or_else(|e| e.into_inner());
        }
    }

    pub fn point(&self, me: usize) {
        let mut st = self.lock();
        if st.over || !self.count(&mut st, me) {
            self.never(me, st);
        }
        let others = Self::others(&st, me);
        if others.is_empty() {
            return;
        }
        let den = st.den;
        if self.case.below(den) == den - 1 {
            let next = others[self.case.below(others.len())];
            self.hand_over(st, me, next);
        }
    }

    pub fn yield_now(&self, me: usize) {
        let mut st = self.lock();
        if st.over || !self.count(&mut st, me) {
            self.never(me, st);
        }
        let others = Self::others(&st, me);
        if !others.is_empty() {
            let next = others[self.case.below(others.len())];
            self.hand_over(st, me, next);
        }
    }

    fn block(&self, me: usize, status: Status) {
        let mut st = self.lock();
        if st.over || !self.count(&mut st, me) {
            self.never(me, st);
        }
        st.threads[me].status = status;
        let others = Self::others(&st, me);
        if others.is_empty() {
            st = self.deadlock(st);
            self.never(me, st);
        }
        let next = others[self.case.below(others.len())];
        self.hand_over(st, me, next);
    }

    fn deadlock<'a>(&'a self, mut st: MutexGuard<'a, St>) -> MutexGuard<'a, St> {
        if CONFIRMED.load(Relaxed) < 3 {
            // Nobody can be left who would resolve it.
            for _ in 0..40 {
                drop(st);
                std::thread::sleep(Duration::from_millis(10));
                st = self.lock();
                if st.over {
                    return st;
                }
                if st.threads.iter().any(|t| t.status == Status::Run) {
                    self.foreign(&mut st);
                    return st;
                }
            }
            CONFIRMED.fetch_add(1, Relaxed);
        }
        let who: Vec<String> = st
            .threads
            .iter()
            .filter(|t| t.status != Status::Done)
            .map(|t| {
                let s = match t.status {
                    Status::Blocked(_) => "on a lock or channel",
                    Status::Parked => "parked",
                    Status::WaitWaker => "pending, waiting for its waker",
                    _ => "?",
                };
                format!("{} ({s})", t.name)
            })
            .collect();
        self.case.note_fail(format!("deadlock (lost wakeup): nothing can run; blocked: {}", who.join(", ")));
        self.stop(&mut st);
        st
    }

    fn add(self: &Arc<Self>, name: String, f: Box<dyn FnOnce() + Send>) {
        let cv = Arc::new(Condvar::new());
        let tid = {
            let mut st = self.lock();
            st.threads.push(T {
                name: name.clone(),
                status: Status::Run,
                token: false,
                woken: false,
                gen: 0,
                cv: cv.clone(),
                id: None,
            });
            st.threads.len() - 1
        };
        let me = self.clone();
        let h = std::thread::Builder::new()
            .name(name)
            .stack_size(512 << 10)
            .spawn(move || me.thread_main(tid, cv, f))
            .expect("spawn");
        self.lock().threads[tid].id = Some(h.thread().id());
    }

    fn thread_main(self: Arc<Self>, tid: usize, cv: Arc<Condvar>, f: Box<dyn FnOnce() + Send>) {
        known();
        {
            let mut st = self.lock();
            while st.current != tid {
                st = cv.wait(st).unwrap_or_else(|e| e.into_inner());
            }
        }
        CUR.with(|c| *c.borrow_mut() = Some((self.clone(), tid)));
        let r = catch_unwind(AssertUnwindSafe(f));
        let _ = CUR.try_with(|c| *c.borrow_mut() = None);
        let mut st = self.lock();
        st.threads[tid].status = Status::Done;
        if let Err(p) = r {
            if p.is::<Inconclusive>() {
                self.case.with(|i| i.inconclusive = true);
            } else if !p.is::<Failed>() {
                let m = crate::runner::last_panic().unwrap_or_else(|| "panic".into());
                let name = st.threads[tid].name.clone();
                self.case.note_fail(format!("thread {name}: {m}"));
            }
            self.stop(&mut st);
            return;
        }
        let others = Self::others(&st, tid);
        if others.is_empty() {
            if st.threads.iter().all(|t| t.status == Status::Done) {
                self.stop(&mut st);
            } else {
                drop(self.deadlock(st));
            }
            return;
        }
        let next = others[self.case.below(others.len())];
        st.current = next;
        st.threads[next].cv.notify_one();
    }

    /// Marks the start of a poll by `me` and gives the generation of its waker.
    pub fn begin_poll(&self, me: usize, fresh: bool) -> u64 {
        let mut st = self.lock();
        let t = &mut st.threads[me];
        if fresh {
            t.gen += 1;
        }
        t.woken = false;
        t.gen
    }
    /// User code used up the thread's park token.
    pub fn eat_token(&self, me: usize) {
        self.lock().threads[me].token = false;
    }
    pub fn woken(&self, me: usize) -> bool {
        self.lock().threads[me].woken
    }
    pub fn wait_woken(&self, me: usize) {
        self.point(me);
        if !self.lock().threads[me].woken {
            self.block(me, Status::WaitWaker);
        }
    }
    pub fn wake(&self, tid: usize, gen: u64) {
        let known = cur().map(|(s, me)| s.point(me)).is_some();
        let mut st = self.lock();
        if !known && !st.over {
            self.foreign(&mut st);
        }
        let t = &mut st.threads[tid];
        if t.gen == gen {
            t.woken = true;
            if t.status == Status::WaitWaker {
                t.status = Status::Run
            }
        }
    }
}

/// Blocks the calling controlled thread until `wake_key(key)`.
pub fn wait_key(key: usize) {
    if let Some((s, me)) = cur() {
        s.block(me, Status::Blocked(key))
    }
}
pub fn wake_key(key: usize) {
    if let Some((s, _)) = cur() {
        let mut st = s.lock();
        for t in &mut st.threads {
            if t.status == Status::Blocked(key) {
                t.status = Status::Run
            }
        }
    }
}

pub fn current() -> Option<(Arc<Sched>, usize)> {
    cur()
}

/// Runs the bodies as controlled threads until all have finished.
pub fn run(case: &Case, bodies: Vec<(String, Box<dyn FnOnce() + Send>)>) {
    static INSTALL: Once = Once::new();
    crate::runner::USED_THREADS.store(true, std::sync::atomic::Ordering::Relaxed);
    INSTALL.call_once(|| futures_core::__verif::install(&Hook));
    if FOREIGN.load(Relaxed) >= 20 || SAW_FOREIGN.load(Relaxed) {
        case.with(|i| (i.foreign, i.inconclusive) = (true, true));
        std::panic::panic_any(Inconclusive)
    }
    let den = *case.pick(&[30usize, 10, 5, 3, 2]);
    let s = Arc::new(Sched {
        case: case.clone(),
        st: Mutex::new(St {
            threads: vec![],
            current: usize::MAX,
            steps: 0,
            limit: 30_000,
            den,
            switches: 0,
            over: false,
        }),
        done: Condvar::new(),
    });
    for (name, f) in bodies {
        s.add(name, f);
    }
    let mut st = s.lock();
    let first = case.below(st.threads.len());
    st.current = first;
    st.threads[first].cv.notify_one();
    let mut last = (u64::MAX, Instant::now());
    while !st.over {
        st = s.done.wait_timeout(st, Duration::from_secs(1)).unwrap_or_else(|e| e.into_inner()).0;
        if st.over {
        } else if st.steps != last.0 {
            last = (st.steps, Instant::now());
        } else if last.1.elapsed() > Duration::from_secs(5) {
            // The thread whose turn it is hangs in something that is not hooked.
            s.foreign(&mut st);
        }
    }
    let switches = st.switches;
    if SAW_FOREIGN.load(Relaxed) {
        s.foreign(&mut st);
    }
    drop(st);
    if case.failed() {
        std::panic::panic_any(Failed)
    }
    if case.with(|i| i.inconclusive) {
        std::panic::panic_any(Inconclusive)
    }
    if switches >= 2 {
        case.label("schedules_with_2+_switches");
    }
}

/// How many controlled threads this case has had so far.
pub fn threads() -> usize {
    cur().map_or(0, |(s, _)| s.lock().threads.len())
}
/// The library started threads without asking: this case gives no verdict.
pub fn uncontrolled() {
    if let Some((s, me)) = cur() {
        let mut st = s.lock();
        s.foreign(&mut st);
        s.never(me, st);
    }
}
