//! Futures and events for controlled threads.
use crate::case::Injected;
use crate::{Case, Tok};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

/// A schedule point in code that has no `Th` at hand.
pub fn pt() {
    #[cfg(futures_verif)]
    if let Some((s, me)) = crate::sched::current() {
        s.point(me)
    }
}

/// User code that parks the thread itself and so uses up its park token.
pub fn eat_token() {
    #[cfg(futures_verif)]
    if let Some((s, me)) = crate::sched::current() {
        s.eat_token(me);
        return;
    }
    std::thread::park_timeout(std::time::Duration::ZERO);
}

// ------------------------------------------------------- a future for threads

/// Events that release `TFut`s and `TStream`s, fired from another thread.
#[derive(Clone)]
pub struct Evs(pub Arc<Mutex<(usize, Vec<Waker>)>>);

impl Evs {
    pub fn new() -> Self {
        Evs(Default::default())
    }
    pub fn fired(&self) -> usize {
        self.0.lock().unwrap().0
    }
    pub fn fire(&self) {
        let ws = {
            let mut g = self.0.lock().unwrap();
            g.0 += 1;
            std::mem::take(&mut g.1)
        };
        for w in ws {
            pt();
            w.wake();
        }
    }
    /// Ready once `n` events have fired.
    pub fn poll(&self, n: usize, cx: &mut Context<'_>) -> Poll<()> {
        let mut g = self.0.lock().unwrap();
        if g.0 >= n {
            return Poll::Ready(());
        }
        g.1.retain(|w| !w.will_wake(cx.waker()));
        g.1.push(cx.waker().clone());
        Poll::Pending
    }
}

/// Watches the contract of one leaf: one poll at a time, none after the end.
#[derive(Default)]
pub struct Watch {
    pub busy: AtomicBool,
    pub done: AtomicBool,
    pub dropped: AtomicBool,
    pub polls: AtomicUsize,
    /// Set when the leaf must not be polled any more.
    pub forbidden: AtomicBool,
}

pub struct TFut<T> {
    pub case: Case,
    pub evs: Evs,
    /// Needs this many events; `usize::MAX`: never ready.
    pub need: usize,
    pub out: Option<T>,
    pub panics: bool,
    pub w: Arc<Watch>,
    _held: Tok,
    _pin: std::marker::PhantomPinned,
}

impl<T> TFut<T> {
    pub fn new(case: &Case, evs: &Evs, need: usize, out: T) -> Self {
        TFut {
            case: case.clone(),
            evs: evs.clone(),
            need,
            out: Some(out),
            panics: false,
            w: Default::default(),
            _held: case.tok_kind(0, "future"),
            _pin: std::marker::PhantomPinned,
        }
    }
}
impl<T> Future for TFut<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let this = unsafe { self.get_unchecked_mut() };
        let w = &this.w;
        this.case.check(!w.busy.swap(true, Relaxed), || "two polls of the inner future at once".into());
        this.case.check(!w.done.load(Relaxed), || "the inner future was polled after it completed".into());
        this.case.check(!w.forbidden.load(Relaxed), || "the inner future was polled although it was cancelled before".into());
        w.polls.fetch_add(1, Relaxed);
        pt();
        let r = this.evs.poll(this.need, cx);
        pt();
        w.busy.store(false, Relaxed);
        match r {
            Poll::Ready(()) => {
                w.done.store(true, Relaxed);
                if this.panics {
                    std::panic::panic_any(Injected(99));
                }
                Poll::Ready(this.out.take().unwrap())
            }
            Poll::Pending => Poll::Pending,
        }
    }
}
impl<T> Drop for TFut<T> {
    fn drop(&mut self) {
        let twice = self.w.dropped.swap(true, Relaxed);
        self.case.check(!twice, || "inner future dropped twice".into());
        if self.w.busy.load(Relaxed) && !std::thread::panicking() {
            self.case.fail("inner future dropped while it is polled");
        }
    }
}


// ----------------------------------------------------------------- publishing

/// A future and a thread body: the thread writes data and then wakes the future,
/// whose poll caused by that wake reads it. Nothing but the code between `wake`
/// and `poll` orders the two. `pre` wakes without data come first, so that the
/// last one may find the task already notified.
///
/// Without such wakes the data is plain, so that Miri's race detector decides.
/// With them, a poll caused by an earlier wake may run at the same time, so the
/// data is a relaxed atomic: the future is stuck if it read an old value in the
/// last poll it was given (Miri's loads return old values where they may).
/// `fin` counts threads that are done, without ordering anything.
pub fn published(by_ref: bool, pre: usize, fin: &Arc<AtomicUsize>) -> (impl Future<Output = u64> + Send + 'static, crate::par::Body) {
    published_as(by_ref, pre, pre == 0, fin)
}

/// The same with the kind of data chosen: plain only where nothing but the wake
/// itself may cause the poll that reads it.
pub fn published_as(by_ref: bool, pre: usize, plain: bool, fin: &Arc<AtomicUsize>) -> (impl Future<Output = u64> + Send + 'static, crate::par::Body) {
    struct Data(std::cell::UnsafeCell<u64>, AtomicU64);
    unsafe impl Sync for Data {}
    unsafe impl Send for Data {}
    let d = Arc::new(Data(0.into(), 0.into()));
    let slot: Arc<Mutex<Option<Waker>>> = Default::default();
    let (d2, slot2, fin) = (d.clone(), slot.clone(), fin.clone());
    let mut first = true;
    let fut = std::future::poll_fn(move |cx: &mut Context<'_>| {
        if first {
            first = false;
            *slot2.lock().unwrap() = Some(cx.waker().clone());
            // The wake may come while this poll is still going on.
            for _ in 0..if cfg!(miri) { 8 } else { 1 } {
                pt();
                if cfg!(miri) {
                    std::thread::yield_now();
                }
            }
            return Poll::Pending;
        }
        match d2.1.load(Relaxed) {
            0 => Poll::Pending,
            1 => Poll::Ready(unsafe { *d2.0.get() }),
            v => Poll::Ready(v),
        }
    });
    let body = crate::par::body(move |th| {
        let w = loop {
            if let Some(w) = slot.lock().unwrap().take() {
                break w;
            }
            th.pause();
        };
        for _ in 0..pre {
            w.wake_by_ref();
            pt();
        }
        if plain {
            unsafe { *d.0.get() = 7 };
            d.1.store(1, Relaxed);
        } else {
            d.1.store(7, Relaxed);
        }
        if by_ref {
            w.wake_by_ref()
        } else {
            w.wake()
        }
        fin.fetch_add(1, Relaxed);
    });
    (fut, body)
}
