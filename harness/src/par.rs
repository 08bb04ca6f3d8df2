//! Thread bodies that run either under the controlled scheduler (hooks on) or
//! on plain threads (Miri, which randomises the schedule itself).
use crate::case::{splitmix, Case};
#[cfg(not(futures_verif))]
use crate::case::Failed;
use std::cell::Cell;
use std::future::Future;
use std::pin::{pin, Pin};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
#[cfg(futures_verif)]
use std::task::Wake;

thread_local! {
    /// Set (without ordering anything) while a waker of this thread is cloned,
    /// which then takes longer. Only without the controlled scheduler.
    pub static IN_CLONE: std::cell::RefCell<Option<Arc<std::sync::atomic::AtomicBool>>> = Default::default();
}

pub struct Th {
    pub case: Case,
    /// Whether this thread sometimes polls again without having been woken.
    spurious: bool,
    rng: Cell<u64>,
    waker: std::cell::RefCell<Option<std::rc::Rc<Waker>>>,
    #[cfg(not(futures_verif))]
    plain: std::cell::RefCell<Option<Arc<Plain>>>,
}

pub type Body = Box<dyn FnOnce(&Th) + Send>;

#[cfg(futures_verif)]
struct W {
    sched: Arc<crate::sched::Sched>,
    tid: usize,
    gen: u64,
}

#[cfg(futures_verif)]
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.sched.wake(self.tid, self.gen)
    }
}

#[cfg(not(futures_verif))]
struct Plain {
    thread: std::thread::Thread,
    woken: std::sync::atomic::AtomicBool,
}

// Relaxed on purpose: the waker must not add the happens-before edges that the
// library is responsible for. (park/unpark does add one when it really parks.)
#[cfg(not(futures_verif))]
impl Plain {
    fn wake(&self) {
        self.woken.store(true, std::sync::atomic::Ordering::Relaxed);
        self.thread.unpark();
    }
    /// A waker whose `clone` gives other threads a chance to run.
    fn waker(self: Arc<Self>) -> Waker {
        use std::task::{RawWaker, RawWakerVTable};
        static VT: RawWakerVTable = RawWakerVTable::new(
            |p| {
                let hook = IN_CLONE.with(|h| h.borrow().clone());
                let n = if let Some(h) = hook {
                    h.store(true, std::sync::atomic::Ordering::Relaxed);
                    12
                } else {
                    1
                };
                for _ in 0..n {
                    std::thread::yield_now();
                }
                unsafe { Arc::increment_strong_count(p as *const Plain) };
                RawWaker::new(p, &VT)
            },
            |p| unsafe { Arc::from_raw(p as *const Plain) }.wake(),
            |p| unsafe { &*(p as *const Plain) }.wake(),
            |p| drop(unsafe { Arc::from_raw(p as *const Plain) }),
        );
        unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(self) as *const (), &VT)) }
    }
}

impl Th {
    fn new(case: &Case, seed: u64, spurious: bool) -> Self {
        Th {
            case: case.clone(),
            spurious,
            rng: Cell::new(seed),
            waker: Default::default(),
            #[cfg(not(futures_verif))]
            plain: Default::default(),
        }
    }
    /// A choice: from the tape when the schedule is controlled, from a
    /// thread-local generator otherwise (no synchronisation between threads).
    pub fn below(&self, n: usize) -> usize {
        #[cfg(futures_verif)]
        {
            let _ = (&self.rng, splitmix);
            self.case.below(n)
        }
        #[cfg(not(futures_verif))]
        {
            let mut r = self.rng.get();
            let v = splitmix(&mut r);
            self.rng.set(r);
            (v % n.max(1) as u64) as usize
        }
    }
    pub fn chance(&self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn log(&self, f: impl FnOnce() -> String) {
        if !cfg!(miri) {
            self.case.log(f)
        }
    }
    pub fn label(&self, l: &'static str) {
        if !cfg!(miri) {
            self.case.label(l)
        }
    }
    /// A place where the schedule may change hands.
    pub fn point(&self) {
        #[cfg(futures_verif)]
        if let Some((s, me)) = crate::sched::current() {
            s.point(me)
        }
        #[cfg(not(futures_verif))]
        if self.below(4) == 0 {
            std::thread::yield_now()
        }
    }
    /// Other threads get to run.
    pub fn pause(&self) {
        #[cfg(futures_verif)]
        if let Some((s, me)) = crate::sched::current() {
            s.yield_now(me)
        }
        #[cfg(not(futures_verif))]
        std::thread::yield_now()
    }
    pub fn poll_cx<R>(&self, f: impl FnOnce(&mut Context<'_>) -> R) -> R {
        let fresh = self.waker.borrow().is_none() || self.chance(1, 3);
        #[cfg(futures_verif)]
        {
            let (s, me) = crate::sched::current().expect("controlled thread");
            let gen = s.begin_poll(me, fresh);
            if fresh {
                *self.waker.borrow_mut() = Some(Waker::from(Arc::new(W { sched: s, tid: me, gen })).into());
            }
        }
        #[cfg(not(futures_verif))]
        {
            if fresh {
                let p = Arc::new(Plain { thread: std::thread::current(), woken: false.into() });
                *self.plain.borrow_mut() = Some(p.clone());
                *self.waker.borrow_mut() = Some(p.waker().into());
            }
            self.plain.borrow().as_ref().unwrap().woken.store(false, std::sync::atomic::Ordering::Relaxed);
        }
        let w = self.waker.borrow().clone().unwrap();
        f(&mut Context::from_waker(&w))
    }
    pub fn poll<F: Future>(&self, f: Pin<&mut F>) -> Poll<F::Output> {
        self.poll_cx(|cx| f.poll(cx))
    }
    /// Whether the waker of the latest poll was woken.
    pub fn woken(&self) -> bool {
        #[cfg(futures_verif)]
        {
            let (s, me) = crate::sched::current().expect("controlled thread");
            s.woken(me)
        }
        #[cfg(not(futures_verif))]
        self.plain.borrow().as_ref().map_or(false, |p| p.woken.load(std::sync::atomic::Ordering::Relaxed))
    }
    /// Waits until the waker of the latest poll is woken.
    pub fn wait(&self) {
        #[cfg(futures_verif)]
        {
            let (s, me) = crate::sched::current().expect("controlled thread");
            s.wait_woken(me)
        }
        #[cfg(not(futures_verif))]
        {
            let p = self.plain.borrow().clone().unwrap();
            // Spinning adds no happens-before edge; parking shows deadlocks.
            let mut spins = if self.below(2) == 0 { 0 } else { 60 };
            while !p.woken.load(std::sync::atomic::Ordering::Relaxed) {
                if spins > 0 {
                    spins -= 1;
                    std::thread::yield_now();
                    continue;
                }
                std::thread::park();
            }
        }
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        let mut f = pin!(f);
        loop {
            match self.poll(f.as_mut()) {
                Poll::Ready(t) => return t,
                Poll::Pending if self.spurious && self.chance(1, 3) => self.pause(),
                Poll::Pending => self.wait(),
            }
        }
    }
    /// `block_on` for a poll function.
    pub fn block_on_fn<T>(&self, mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> T {
        self.block_on(std::future::poll_fn(move |cx| f(cx)))
    }
    #[track_caller]
    pub fn check(&self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            self.case.fail(msg())
        }
    }
}

pub fn body(f: impl FnOnce(&Th) + Send + 'static) -> Body {
    Box::new(f)
}

pub fn run(case: &Case, bodies: Vec<(String, Body)>) {
    let mut seed = case.below(1 << 30) as u64;
    let spurious = case.chance(1, 4);
    case.label_if(spurious, "spurious_polls");
    let list: Vec<(String, Box<dyn FnOnce() + Send>)> = bodies
        .into_iter()
        .map(|(n, b)| {
            let s = splitmix(&mut seed);
            let c = case.clone();
            let f: Box<dyn FnOnce() + Send> = Box::new(move || b(&Th::new(&c, s, spurious)));
            (n, f)
        })
        .collect();
    #[cfg(futures_verif)]
    crate::sched::run(case, list);
    #[cfg(not(futures_verif))]
    {
        let hs: Vec<_> = list
            .into_iter()
            .map(|(n, f)| {
                let case = case.clone();
                std::thread::Builder::new()
                    .name(n.clone())
                    .spawn(move || {
                        if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                            if !p.is::<Failed>() {
                                let m = crate::runner::last_panic().unwrap_or_else(|| "panic".into());
                                case.note_fail(format!("thread {n}: {m}"));
                            }
                        }
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
        if case.failed() {
            std::panic::panic_any(Failed)
        }
    }
}

/// Makes a pool; if its threads are not under control there is no verdict.
pub fn pool<T>(make: impl FnOnce() -> T) -> T {
    #[cfg(futures_verif)]
    let n = crate::sched::threads();
    let r = make();
    #[cfg(futures_verif)]
    if crate::sched::threads() == n {
        crate::sched::uncontrolled();
    }
    r
}
