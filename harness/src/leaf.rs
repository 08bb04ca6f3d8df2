//! Scripted futures, streams and sinks. They follow their own contract to the
//! letter and report callers that break theirs: polling after the end, moving
//! after pinning, sending without readiness, use after close.
use crate::case::{Case, Injected, Tok};
use crate::sim::{Ev, World};
use futures_core::future::FusedFuture;
use futures_core::stream::{FusedStream, Stream};
use futures_sink::Sink;
use std::collections::VecDeque;
use std::future::Future;
use std::marker::PhantomPinned;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Clone)]
pub enum Gate {
    /// Pending until the event fires.
    Wait(Ev),
    /// Pending once, after waking the polling task.
    Yield,
    /// Pending once, after waking through a clone that is then dropped.
    YieldClone,
}

impl Gate {
    pub fn gen(world: &World) -> Gate {
        match world.case.weighted(&[4, 1, 1]) {
            0 => Gate::Wait(world.event("gate")),
            1 => Gate::Yield,
            _ => Gate::YieldClone,
        }
    }
    /// True: passed for good (pop it). False: pending.
    fn poll(&mut self, cx: &mut Context<'_>, passed: &mut bool) -> bool {
        match self {
            Gate::Wait(e) => {
                *passed = e.poll(cx).is_ready();
                *passed
            }
            Gate::Yield => {
                cx.waker().wake_by_ref();
                *passed = true;
                false
            }
            Gate::YieldClone => {
                let w = cx.waker().clone();
                w.wake();
                *passed = true;
                false
            }
        }
    }
    pub(crate) fn forget(&self) {
        if let Gate::Wait(e) = self {
            e.forget()
        }
    }
}

/// 0 (often), 1 or 2 gates.
pub fn gates(world: &World) -> VecDeque<Gate> {
    let n = world.case.weighted(&[4, 4, 1]);
    (0..n).map(|_| Gate::gen(world)).collect()
}

pub(crate) fn pass(gs: &mut VecDeque<Gate>, cx: &mut Context<'_>) -> Poll<()> {
    pass_y(gs, cx, &mut false)
}

fn pass_y(gs: &mut VecDeque<Gate>, cx: &mut Context<'_>, yielded: &mut bool) -> Poll<()> {
    while let Some(g) = gs.front_mut() {
        let mut passed = false;
        let now = g.poll(cx, &mut passed);
        if passed {
            gs.pop_front();
        }
        if !now {
            *yielded = passed;
            return Poll::Pending;
        }
    }
    Poll::Ready(())
}

/// What happened to a leaf, for the oracle.
#[derive(Default)]
pub struct LeafSt {
    pub polls: AtomicU64,
    pub done: AtomicBool,
    /// When it completed (a logical time, 0: not yet).
    pub done_at: AtomicU64,
    pub dropped: AtomicBool,
    /// Items handed out (streams).
    pub items: AtomicU64,
    /// Wakeups this leaf may have been given so far at most, plus one.
    pub allowed: AtomicU64,
    /// The event it waits for.
    pub waiting: Mutex<Option<Ev>>,
    /// Clones of wakers it kept.
    pub stash: Mutex<Vec<Waker>>,
    /// No items are left (streams).
    pub spent: AtomicBool,
}

impl LeafSt {
    pub fn spent(&self) -> bool {
        self.spent.load(SeqCst)
    }
    pub fn polls(&self) -> u64 {
        self.polls.load(SeqCst)
    }
    pub fn started(&self) -> bool {
        self.polls() > 0
    }
    pub fn done(&self) -> bool {
        self.done.load(SeqCst)
    }
    pub fn dropped(&self) -> bool {
        self.dropped.load(SeqCst)
    }
    pub fn done_at(&self) -> u64 {
        self.done_at.load(SeqCst)
    }
    pub fn items(&self) -> u64 {
        self.items.load(SeqCst)
    }
    /// Polled before, and waiting for an event that has not fired.
    pub fn blocked(&self) -> bool {
        self.waiting.lock().unwrap().as_ref().map_or(false, |e| !e.fired())
    }
    /// Wakes through a kept waker; false if there is none.
    pub fn wake_stash(&self, case: &Case) -> bool {
        let w = {
            let mut g = self.stash.lock().unwrap();
            if g.is_empty() {
                return false;
            }
            let i = case.below(g.len());
            g.swap_remove(i)
        };
        self.allowed.fetch_add(1, SeqCst);
        w.wake();
        true
    }
    fn set_waiting(&self, g: Option<&Gate>) {
        let ev = match g {
            Some(Gate::Wait(e)) => Some(e.clone()),
            _ => None,
        };
        *self.waiting.lock().unwrap() = ev;
    }
    fn keep(&self, case: &Case, cx: &Context<'_>) {
        if case.chance(1, 6) {
            self.stash.lock().unwrap().push(cx.waker().clone());
        }
    }
}

struct PinCheck(AtomicU64, PhantomPinned);

impl PinCheck {
    fn new() -> Self {
        PinCheck(AtomicU64::new(0), PhantomPinned)
    }
    fn check(&self, case: &Case, what: &str) {
        let me = self as *const _ as u64;
        let old = self.0.swap(me, SeqCst);
        if old != 0 && old != me {
            case.note_fail(format!("a pinned {what} was moved between polls"));
        }
    }
}

pub enum Out<T> {
    Value(T),
    Panic(u64),
}

/// A future that passes its gates and then gives its output (or panics).
pub struct LFut<T> {
    case: Case,
    pub name: String,
    gates: VecDeque<Gate>,
    out: Option<Out<T>>,
    pub st: Arc<LeafSt>,
    pin: PinCheck,
    keep: bool,
    _life: Option<Tok>,
}

impl<T> LFut<T> {
    fn with(world: &World, name: impl Into<String>, gates: VecDeque<Gate>, out: Out<T>) -> Self {
        let case = &world.case;
        let st = LeafSt::default();
        st.allowed.store(1 + gates.len() as u64, SeqCst);
        LFut {
            case: case.clone(),
            name: name.into(),
            gates,
            out: Some(out),
            st: Arc::new(st),
            pin: PinCheck::new(),
            keep: false,
            _life: Some(case.tok_kind(0, "future")),
        }
    }
    pub fn new(world: &World, name: impl Into<String>, gates: VecDeque<Gate>, out: T) -> Self {
        Self::with(world, name, gates, Out::Value(out))
    }
    pub fn panicking(world: &World, name: impl Into<String>, gates: VecDeque<Gate>, code: u64) -> Self {
        Self::with(world, name, gates, Out::Panic(code))
    }
    /// Sometimes keeps a clone of the waker it is polled with.
    pub fn keeping_wakers(mut self) -> Self {
        self.keep = true;
        self
    }
    pub fn gen(world: &World, name: impl Into<String>, out: T) -> Self {
        let g = gates(world);
        Self::new(world, name, g, out)
    }
    pub fn n_gates(&self) -> usize {
        self.gates.len()
    }
}

impl<T> Future for LFut<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        // Nothing is moved out of the pin except the output.
        let s = unsafe { self.get_unchecked_mut() };
        s.case.step();
        s.pin.check(&s.case, "future");
        s.st.polls.fetch_add(1, SeqCst);
        if s.st.done() {
            let n = &s.name;
            s.case.fail(format!("future {n} polled after it completed"));
        }
        let mut yielded = false;
        if pass_y(&mut s.gates, cx, &mut yielded).is_pending() {
            s.st.set_waiting(if yielded { None } else { s.gates.front() });
            if s.keep {
                s.st.keep(&s.case, cx);
            }
            let n = &s.name;
            s.case.log(|| format!("  {n}: pending"));
            return Poll::Pending;
        }
        s.st.set_waiting(None);
        s.st.done.store(true, SeqCst);
        s.st.done_at.store(s.case.now(), SeqCst);
        match s.out.take().unwrap() {
            Out::Value(t) => {
                let n = &s.name;
                s.case.log(|| format!("  {n}: ready"));
                Poll::Ready(t)
            }
            Out::Panic(c) => {
                let n = &s.name;
                s.case.log(|| format!("  {n}: panics"));
                std::panic::panic_any(Injected(c))
            }
        }
    }
}

impl<T> FusedFuture for LFut<T> {
    fn is_terminated(&self) -> bool {
        self.st.done()
    }
}

impl<T> Drop for LFut<T> {
    fn drop(&mut self) {
        let n = &self.name;
        self.case.log(|| format!("  {n}: dropped"));
        self.pin_moved_check();
        if self.st.dropped.swap(true, SeqCst) {
            self.case.note_fail(format!("future {} dropped twice", self.name));
        }
        for g in &self.gates {
            g.forget();
        }
    }
}

impl<T> LFut<T> {
    fn pin_moved_check(&self) {
        if self.st.started() {
            self.pin.check(&self.case, "future (when dropped)");
        }
    }
}

pub enum SStep<T> {
    Item(T),
    Gate(Gate),
    Panic(u64),
}

/// A stream that plays its script and ends.
pub struct LStream<T> {
    case: Case,
    pub name: String,
    script: VecDeque<SStep<T>>,
    pub st: Arc<LeafSt>,
    pin: PinCheck,
    slack: (usize, Option<usize>),
    /// Reports termination as soon as no items are left.
    early: bool,
    _life: Option<Tok>,
}

impl<T> LStream<T> {
    pub fn new(world: &World, name: impl Into<String>, script: VecDeque<SStep<T>>) -> Self {
        let case = &world.case;
        let slack = match case.below(4) {
            0 => (0, Some(0)),
            1 => (usize::MAX, None),
            2 => (1, Some(case.below(3))),
            _ => (0, None),
        };
        LStream {
            case: case.clone(),
            name: name.into(),
            script,
            st: Default::default(),
            pin: PinCheck::new(),
            slack,
            early: false,
            _life: Some(case.tok_kind(0, "stream")),
        }
    }
    pub fn early(mut self) -> Self {
        self.early = true;
        self.st.spent.store(self.remaining() == 0, SeqCst);
        self
    }
    /// Items in order with gates in between (and perhaps before the end).
    pub fn gen(world: &World, name: impl Into<String>, items: impl IntoIterator<Item = T>) -> Self {
        let case = &world.case;
        let pace = case.below(3);
        let mut script = VecDeque::new();
        for it in items {
            if pace > 0 {
                while case.chance(pace, 4) {
                    script.push_back(SStep::Gate(Gate::gen(world)));
                }
            }
            script.push_back(SStep::Item(it));
        }
        if case.chance(1, 3) {
            script.push_back(SStep::Gate(Gate::gen(world)));
        }
        Self::new(world, name, script)
    }
    pub fn remaining(&self) -> usize {
        self.script.iter().filter(|s| matches!(s, SStep::Item(_) | SStep::Panic(_))).count()
    }
    pub fn exact_hint(mut self) -> Self {
        self.slack = (0, Some(0));
        self
    }
}

impl<T> Stream for LStream<T> {
    type Item = T;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let s = unsafe { self.get_unchecked_mut() };
        s.case.step();
        s.pin.check(&s.case, "stream");
        s.st.polls.fetch_add(1, SeqCst);
        if s.st.done() {
            let n = &s.name;
            s.case.fail(format!("stream {n} polled after it ended"));
        }
        let n = &s.name;
        loop {
            match s.script.front_mut() {
                None => {
                    s.st.done.store(true, SeqCst);
                    s.case.log(|| format!("  {n}: end"));
                    return Poll::Ready(None);
                }
                Some(SStep::Gate(g)) => {
                    let mut passed = false;
                    let now = g.poll(cx, &mut passed);
                    if passed {
                        s.script.pop_front();
                    }
                    if !now {
                        let f = match s.script.front() {
                            Some(SStep::Gate(g)) if !passed => Some(g),
                            _ => None,
                        };
                        s.st.set_waiting(f);
                        s.case.log(|| format!("  {n}: pending"));
                        return Poll::Pending;
                    }
                    s.st.set_waiting(None);
                }
                Some(SStep::Item(_)) => {
                    let Some(SStep::Item(t)) = s.script.pop_front() else { unreachable!() };
                    s.st.items.fetch_add(1, SeqCst);
                    if s.early {
                        s.st.spent.store(s.remaining() == 0, SeqCst);
                    }
                    s.case.log(|| format!("  {n}: item"));
                    return Poll::Ready(Some(t));
                }
                Some(SStep::Panic(c)) => {
                    let c = *c;
                    s.script.pop_front();
                    s.case.log(|| format!("  {n}: panics"));
                    std::panic::panic_any(Injected(c))
                }
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let r = self.remaining();
        (r.saturating_sub(self.slack.0), self.slack.1.map(|s| r + s))
    }
}

impl<T> FusedStream for LStream<T> {
    fn is_terminated(&self) -> bool {
        self.st.done() || self.early && self.st.spent()
    }
}

impl<T> Drop for LStream<T> {
    fn drop(&mut self) {
        let n = &self.name;
        self.case.log(|| format!("  {n}: dropped"));
        if self.st.started() {
            self.pin.check(&self.case, "stream (when dropped)");
        }
        if self.st.dropped.swap(true, SeqCst) {
            self.case.note_fail(format!("stream {} dropped twice", self.name));
        }
        for s in &self.script {
            if let SStep::Gate(g) = s {
                g.forget();
            }
        }
    }
}

/// What a sink received.
pub struct SinkSt<T> {
    /// Items accepted, in order.
    pub got: Vec<T>,
    /// How many of them were flushed.
    pub flushed: usize,
    pub closed: bool,
    pub errors: usize,
    pub start_sends: usize,
    pub flush_calls: usize,
    pub close_calls: usize,
}

pub struct LSink<T, E> {
    pub case: Case,
    pub name: String,
    pub st: Arc<Mutex<SinkSt<T>>>,
    world: World,
    /// How likely an operation has to wait, out of 8.
    slow: usize,
    /// Items accepted before `poll_ready` waits for its own buffer to drain.
    cap: usize,
    gates: VecDeque<Gate>,
    gate_op: u8,
    ready: bool,
    /// Fail the n-th fallible operation with this error.
    fail: Option<(usize, u8, E)>,
    broken: bool,
    closing: bool,
    pin: PinCheck,
    polled: bool,
    _life: Option<Tok>,
}

const READY: u8 = 1;
const FLUSH: u8 = 2;
const CLOSE: u8 = 3;

impl<T, E> LSink<T, E> {
    pub fn new(world: &World, name: impl Into<String>) -> Self {
        let case = &world.case;
        LSink {
            case: case.clone(),
            name: name.into(),
            st: Arc::new(Mutex::new(SinkSt {
                got: vec![],
                flushed: 0,
                closed: false,
                errors: 0,
                start_sends: 0,
                flush_calls: 0,
                close_calls: 0,
            })),
            world: world.clone(),
            slow: *case.pick(&[0usize, 1, 3, 6]),
            cap: *case.pick(&[1usize, 2, 4, 1000]),
            gates: VecDeque::new(),
            gate_op: 0,
            ready: false,
            fail: None,
            broken: false,
            closing: false,
            pin: PinCheck::new(),
            polled: false,
            _life: Some(case.tok_kind(0, "sink")),
        }
    }
    /// The `n`-th completed call of the given kind (1 ready, 2 flush, 3 close, 4 start_send) fails.
    pub fn failing(mut self, n: usize, op: u8, e: E) -> Self {
        self.fail = Some((n, op, e));
        self
    }
    fn check(&mut self, what: &str) {
        self.case.step();
        self.polled = true;
        self.pin.check(&self.case, "sink");
        // Closing again is harmless; sending, or getting ready to, is not.
        if self.closing && matches!(what, "poll_ready" | "start_send") {
            let n = &self.name;
            self.case.fail(format!("sink {n}: {what} after closing had begun"));
        }
        if self.broken {
            let n = &self.name;
            self.case.fail(format!("sink {n}: {what} after it failed"));
        }
    }
    fn wait(&mut self, op: u8, cx: &mut Context<'_>) -> Poll<()> {
        if self.gate_op != op {
            for g in &self.gates {
                g.forget();
            }
            self.gates.clear();
            if self.slow > 0 && self.case.chance(self.slow, 8) {
                self.gates.push_back(Gate::gen(&self.world));
            }
            self.gate_op = op;
        }
        let r = pass(&mut self.gates, cx);
        if r.is_ready() {
            self.gate_op = 0;
        }
        r
    }
    fn maybe_fail(&mut self, op: u8) -> Option<E> {
        if let Some((n, o, _)) = &mut self.fail {
            if *o == op {
                if *n == 0 {
                    self.broken = true;
                    self.st.lock().unwrap().errors += 1;
                    return self.fail.take().map(|f| f.2);
                }
                *n -= 1;
            }
        }
        None
    }
}

impl<T, E> Sink<T> for LSink<T, E> {
    type Error = E;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), E>> {
        let s = unsafe { self.get_unchecked_mut() };
        s.check("poll_ready");
        let n = s.name.clone();
        if s.ready {
            s.case.log(|| format!("  {n}: poll_ready (still ready)"));
            return Poll::Ready(Ok(()));
        }
        let full = {
            let st = s.st.lock().unwrap();
            st.got.len() - st.flushed >= s.cap
        };
        if full || s.gate_op == READY {
            if s.wait(READY, cx).is_pending() {
                s.case.log(|| format!("  {n}: poll_ready pending"));
                return Poll::Pending;
            }
            let mut st = s.st.lock().unwrap();
            st.flushed = st.got.len();
        }
        if let Some(e) = s.maybe_fail(READY) {
            s.case.log(|| format!("  {n}: poll_ready error"));
            return Poll::Ready(Err(e));
        }
        s.ready = true;
        s.case.log(|| format!("  {n}: poll_ready ok"));
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, item: T) -> Result<(), E> {
        let s = unsafe { self.get_unchecked_mut() };
        s.check("start_send");
        let n = s.name.clone();
        if !s.ready {
            s.case.fail(format!("sink {n}: start_send without a preceding successful poll_ready"));
        }
        s.ready = false;
        s.st.lock().unwrap().start_sends += 1;
        if let Some(e) = s.maybe_fail(4) {
            s.case.log(|| format!("  {n}: start_send error"));
            return Err(e);
        }
        s.case.log(|| format!("  {n}: start_send"));
        s.st.lock().unwrap().got.push(item);
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), E>> {
        let s = unsafe { self.get_unchecked_mut() };
        s.check("poll_flush");
        let n = s.name.clone();
        s.st.lock().unwrap().flush_calls += 1;
        let dirty = {
            let st = s.st.lock().unwrap();
            st.flushed < st.got.len()
        };
        if (dirty || s.gate_op == FLUSH) && s.wait(FLUSH, cx).is_pending() {
            s.case.log(|| format!("  {n}: poll_flush pending"));
            return Poll::Pending;
        }
        if let Some(e) = s.maybe_fail(FLUSH) {
            s.case.log(|| format!("  {n}: poll_flush error"));
            return Poll::Ready(Err(e));
        }
        let mut st = s.st.lock().unwrap();
        st.flushed = st.got.len();
        drop(st);
        s.case.log(|| format!("  {n}: poll_flush ok"));
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), E>> {
        let s = unsafe { self.get_unchecked_mut() };
        s.check("poll_close");
        s.closing = true;
        let n = s.name.clone();
        s.st.lock().unwrap().close_calls += 1;
        if s.st.lock().unwrap().closed {
            return Poll::Ready(Ok(()));
        }
        if s.wait(CLOSE, cx).is_pending() {
            s.case.log(|| format!("  {n}: poll_close pending"));
            return Poll::Pending;
        }
        if let Some(e) = s.maybe_fail(CLOSE) {
            s.case.log(|| format!("  {n}: poll_close error"));
            return Poll::Ready(Err(e));
        }
        let mut st = s.st.lock().unwrap();
        st.flushed = st.got.len();
        st.closed = true;
        drop(st);
        s.case.log(|| format!("  {n}: poll_close ok"));
        Poll::Ready(Ok(()))
    }
}

impl<T, E> Drop for LSink<T, E> {
    fn drop(&mut self) {
        for g in &self.gates {
            g.forget();
        }
        if self.polled {
            self.pin.check(&self.case, "sink (when dropped)");
        }
    }
}
