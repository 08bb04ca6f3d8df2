//! C01-C03 mpsc channels, C04 oneshot, C05 AtomicWaker.
use futures::channel::{mpsc, oneshot};
use futures::future::FusedFuture;
use futures::sink::{Sink, SinkExt};
use futures::stream::{FusedStream, Stream, StreamExt};
use futures::task::AtomicWaker;
use std::collections::{HashMap, HashSet, VecDeque};
use std::future::Future;
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::Poll;
use vh::par::{self, body, Body, Th};
use vh::runner::sub;
use vh::sim::{Poller, Sim};
use vh::{main_for, Case, Prop, Tok};

// ---------------------------------------------------------------- both kinds

enum Tx {
    B(mpsc::Sender<Tok>),
    U(mpsc::UnboundedSender<Tok>),
}
enum Rx {
    B(mpsc::Receiver<Tok>),
    U(mpsc::UnboundedReceiver<Tok>),
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum SendRes {
    Ok,
    Full,
    Disc,
}

fn classify(e: &mpsc::TrySendError<Tok>) -> SendRes {
    match (e.is_full(), e.is_disconnected()) {
        (true, false) => SendRes::Full,
        (false, true) => SendRes::Disc,
        _ => panic!("an error must be exactly one of full and disconnected"),
    }
}
fn classify_s(e: &mpsc::SendError) -> SendRes {
    match (e.is_full(), e.is_disconnected()) {
        (true, false) => SendRes::Full,
        (false, true) => SendRes::Disc,
        _ => panic!("an error must be exactly one of full and disconnected"),
    }
}

impl Tx {
    fn try_send(&mut self, t: Tok) -> Result<(), (SendRes, Tok)> {
        let r = match self {
            Tx::B(s) => s.try_send(t),
            Tx::U(s) => s.unbounded_send(t),
        };
        r.map_err(|e| {
            let k = classify(&e);
            (k, e.into_inner())
        })
    }
    fn poll_ready(&mut self, cx: &mut std::task::Context<'_>, sink: bool) -> Poll<Result<(), mpsc::SendError>> {
        match (self, sink) {
            (Tx::B(s), false) => s.poll_ready(cx),
            (Tx::U(s), false) => s.poll_ready(cx),
            (Tx::B(s), true) => Sink::poll_ready(Pin::new(s), cx),
            (Tx::U(s), true) => Sink::poll_ready(Pin::new(&mut &*s), cx),
        }
    }
    fn start_send(&mut self, t: Tok, sink: bool) -> Result<(), mpsc::SendError> {
        match (self, sink) {
            (Tx::B(s), false) => s.start_send(t),
            (Tx::U(s), false) => s.start_send(t),
            (Tx::B(s), true) => Sink::start_send(Pin::new(s), t),
            (Tx::U(s), true) => Sink::start_send(Pin::new(&mut &*s), t),
        }
    }
    fn poll_flush(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Result<(), mpsc::SendError>> {
        match self {
            Tx::B(s) => Pin::new(s).poll_flush(cx),
            Tx::U(s) => Pin::new(s).poll_flush(cx),
        }
    }
    fn sink_close(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Result<(), mpsc::SendError>> {
        match self {
            Tx::B(s) => Pin::new(s).poll_close(cx),
            Tx::U(s) => Pin::new(s).poll_close(cx),
        }
    }
    fn disconnect(&mut self) {
        match self {
            Tx::B(s) => s.disconnect(),
            Tx::U(s) => s.disconnect(),
        }
    }
    fn close_channel(&mut self) {
        match self {
            Tx::B(s) => s.close_channel(),
            Tx::U(s) => s.close_channel(),
        }
    }
    fn is_closed(&self) -> bool {
        match self {
            Tx::B(s) => s.is_closed(),
            Tx::U(s) => s.is_closed(),
        }
    }
    fn dup(&self) -> Tx {
        match self {
            Tx::B(s) => Tx::B(s.clone()),
            Tx::U(s) => Tx::U(s.clone()),
        }
    }
    fn connected(&self, rx: &Rx) -> bool {
        match (self, rx) {
            (Tx::B(s), Rx::B(r)) => s.is_connected_to(r),
            (Tx::U(s), Rx::U(r)) => s.is_connected_to(r),
            _ => unreachable!(),
        }
    }
    fn same(&self, o: &Tx) -> bool {
        match (self, o) {
            (Tx::B(s), Tx::B(r)) => s.same_receiver(r),
            (Tx::U(s), Tx::U(r)) => s.same_receiver(r),
            _ => unreachable!(),
        }
    }
    fn hash(&self) -> u64 {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        match self {
            Tx::B(s) => s.hash_receiver(&mut h),
            Tx::U(s) => s.hash_receiver(&mut h),
        }
        h.finish()
    }
}

impl Rx {
    fn poll_next(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Option<Tok>> {
        match self {
            Rx::B(r) => Pin::new(r).poll_next(cx),
            Rx::U(r) => Pin::new(r).poll_next(cx),
        }
    }
    fn poll_recv(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Option<Tok>> {
        match self {
            Rx::B(r) => pin!(r.recv()).poll(cx).map(|r| r.ok()),
            Rx::U(r) => pin!(r.recv()).poll(cx).map(|r| r.ok()),
        }
    }
    fn try_recv(&mut self) -> Result<Tok, mpsc::TryRecvError> {
        match self {
            Rx::B(r) => r.try_recv(),
            Rx::U(r) => r.try_recv(),
        }
    }
    #[allow(deprecated)]
    fn try_next(&mut self) -> Result<Option<Tok>, mpsc::TryRecvError> {
        match self {
            Rx::B(r) => r.try_next(),
            Rx::U(r) => r.try_next(),
        }
    }
    fn close(&mut self) {
        match self {
            Rx::B(r) => r.close(),
            Rx::U(r) => r.close(),
        }
    }
    fn terminated(&self) -> bool {
        match self {
            Rx::B(r) => r.is_terminated(),
            Rx::U(r) => r.is_terminated(),
        }
    }
    fn hint(&self) -> (usize, Option<usize>) {
        match self {
            Rx::B(r) => r.size_hint(),
            Rx::U(r) => r.size_hint(),
        }
    }
}

fn make(case: &Case) -> (Tx, Rx, Option<usize>) {
    if case.chance(1, 3) {
        let (t, r) = mpsc::unbounded();
        (Tx::U(t), Rx::U(r), None)
    } else {
        let b = case.range(0, 3);
        let (t, r) = mpsc::channel(b);
        (Tx::B(t), Rx::B(r), Some(b))
    }
}

// ------------------------------------------------------- sequential histories

struct SeqSender {
    tx: Tx,
    id: usize,
    connected: bool,
    /// Pending in poll_ready with this poller.
    p: Poller,
    pending: bool,
    ready: bool,
}

/// What a sequential history is judged on; the three properties share the
/// generator and differ in which judgements they make.
#[derive(Clone, Copy, PartialEq)]
enum Judge {
    Delivery,
    Capacity,
    Close,
}

fn seq(case: &Case, judge: Judge) {
    let (tx, rx, buffer) = make(case);
    case.log(|| format!("channel buffer={buffer:?}"));
    let mut senders = vec![SeqSender { tx, id: 0, connected: true, p: Poller::new(case), pending: false, ready: false }];
    let mut ever = 1usize; // senders ever created
    let mut rx = Some(rx);
    let mut rp = Poller::new(case);
    let mut rx_pending = false;
    let mut rx_end = false; // the receiver has reported the end
    // Model.
    let mut q: VecDeque<(u64, usize)> = VecDeque::new();
    let mut open = true; // sends are accepted
    let mut sender_closed = false; // closed by close_channel on a sender
    let mut next = 0u64;
    let mut all: Vec<u64> = vec![];
    let nops = case.range(1, 40);
    let (mut parked_seen, mut recvs) = (false, 0);
    for _ in 0..nops {
        case.step();
        let live: usize = senders.iter().filter(|s| s.connected).count();
        if live == 0 && open {
            open = false;
        }
        let op = case.below(16);
        match op {
            // send without waiting
            0..=2 if !senders.is_empty() => {
                let i = case.below(senders.len());
                let v = next;
                next += 1;
                let t = case.tok(v);
                let s = &mut senders[i];
                let outstanding = q.iter().filter(|m| m.1 == s.id).count();
                let r = s.tx.try_send(t);
                case.log(|| format!("s{}.try_send({v}) -> {:?}", s.id, r.as_ref().map_err(|e| e.0)));
                let res = match r {
                    Ok(()) => SendRes::Ok,
                    Err((k, t)) => {
                        case.eq(t.v, v, "a rejected message is handed back");
                        k
                    }
                };
                s.ready = false;
                if !s.connected || !open {
                    if judge == Judge::Close {
                        // A parked sender may report Full on a closed channel; it never accepts.
                        case.check(res == SendRes::Disc || (s.connected && res == SendRes::Full && buffer.is_some()), || {
                            format!("send on a closed channel gave {res:?}")
                        });
                    }
                } else if judge == Judge::Capacity {
                    case.check(res != SendRes::Disc, || "an open channel reported Disconnected".into());
                    match buffer {
                        None => case.eq(res, SendRes::Ok, "unbounded send on an open channel"),
                        Some(b) => {
                            if q.len() <= b {
                                case.eq(res, SendRes::Ok, "send with a free buffer slot");
                            } else if outstanding == 0 {
                                case.eq(res, SendRes::Ok, "send into the sender's guaranteed slot");
                            } else if q.len() >= b + ever {
                                case.eq(res, SendRes::Full, "send beyond buffer + senders");
                            }
                        }
                    }
                }
                if res == SendRes::Ok {
                    if judge == Judge::Close {
                        case.check(open && s.connected, || "a closed channel accepted a message".into());
                    }
                    q.push_back((v, s.id));
                    all.push(v);
                } else {
                    parked_seen = true;
                }
            }
            // poll_ready (registers) / start_send / flush
            3..=5 if !senders.is_empty() => {
                let i = case.below(senders.len());
                let sink = case.bool();
                let flush = case.chance(1, 4);
                let s = &mut senders[i];
                let woken = s.p.woken();
                let tx = &mut s.tx;
                let r = s.p.poll(|cx| if flush { tx.poll_flush(cx) } else { tx.poll_ready(cx, sink) });
                case.log(|| format!("s{}.{} -> {r:?}", s.id, if flush { "poll_flush" } else { "poll_ready" }));
                let closed = !s.connected || !open;
                match r {
                    Poll::Pending => {
                        parked_seen = true;
                        if judge == Judge::Capacity {
                            case.check(buffer.is_some(), || "an unbounded sender must never wait".into());
                            if !closed {
                                let outstanding = q.iter().filter(|m| m.1 == s.id).count();
                                case.check(q.len() > buffer.unwrap() && outstanding > 0, || {
                                    format!("poll_ready pending with {} of buffer {:?} used, {outstanding} of its own", q.len(), buffer)
                                });
                            }
                        }
                        if judge == Judge::Close {
                            case.check(!closed || flush, || "poll_ready pending on a closed channel".into());
                        }
                        s.pending = true;
                        s.ready = false;
                    }
                    Poll::Ready(res) => {
                        // Readiness that nobody was woken for is a lost wakeup. (Closing
                        // from another sender is noticed when the receiver next acts.)
                        if judge != Judge::Delivery && s.pending && !woken && !sender_closed {
                            case.fail(format!("s{} became ready ({res:?}) without its task being woken", s.id));
                        }
                        s.pending = false;
                        match res {
                            Ok(()) => {
                                if !flush {
                                    if judge == Judge::Close {
                                        case.check(!closed, || "poll_ready Ok on a closed channel".into());
                                    }
                                    if judge == Judge::Capacity {
                                        if let Some(b) = buffer {
                                            case.check(q.len() < b + ever, || "poll_ready Ok on a full channel".into());
                                        }
                                    }
                                    s.ready = true;
                                }
                            }
                            Err(e) => {
                                if judge == Judge::Close {
                                    case.check(closed && e.is_disconnected() && !e.is_full() && !flush, || {
                                        format!("poll_ready/flush error on an open channel: {e:?}")
                                    });
                                }
                                s.ready = false;
                            }
                        }
                        // Use the readiness at once, most of the time.
                        if s.ready && !flush && case.chance(3, 4) {
                            let v = next;
                            next += 1;
                            let t = case.tok(v);
                            let r = s.tx.start_send(t, sink);
                            case.log(|| format!("s{}.start_send({v}) -> {r:?}", s.id));
                            s.ready = false;
                            match r {
                                Ok(()) => {
                                    q.push_back((v, s.id));
                                    all.push(v);
                                }
                                Err(e) => case.fail(format!("start_send right after a successful poll_ready failed: {:?}", classify_s(&e))),
                            }
                        }
                    }
                }
            }
            // receive
            6..=9 if rx.is_some() => {
                let r = rx.as_mut().unwrap();
                let how = case.below(5);
                let woken = rp.woken();
                let (len0, closed0) = (q.len(), !open);
                let hint = r.hint();
                if judge == Judge::Delivery {
                    case.check(hint.0 <= len0 || !rx_end, || "size_hint".into());
                    case.check(hint.0 <= len0 && (!closed0 || hint.1 == Some(len0)) && hint.1.map_or(true, |h| h >= len0), || {
                        format!("size_hint {hint:?} with {len0} queued, closed={closed0}")
                    });
                }
                let got: Result<Option<Tok>, ()> = match how {
                    0 | 1 => match rp.poll(|cx| r.poll_next(cx)) {
                        Poll::Ready(m) => Ok(m),
                        Poll::Pending => Err(()),
                    },
                    2 => match rp.poll(|cx| r.poll_recv(cx)) {
                        Poll::Ready(m) => Ok(m),
                        Poll::Pending => Err(()),
                    },
                    3 => match r.try_recv() {
                        Ok(m) => Ok(Some(m)),
                        Err(e) if e.is_closed() => Ok(None),
                        Err(_) => Err(()),
                    },
                    _ => r.try_next().map_err(|_| ()),
                };
                case.log(|| format!("rx.recv[{how}] -> {got:?}"));
                if rx_pending && how <= 2 && got.is_ok() && !woken {
                    case.fail(format!("the receiver became ready ({got:?}) without its task being woken"));
                }
                match got {
                    Ok(Some(t)) => {
                        rx_pending = false;
                        recvs += 1;
                        match q.pop_front() {
                            Some((v, _)) => case.eq(t.v, v, "messages come out in order"),
                            None => case.fail(format!("received {:?} from an empty channel", t.v)),
                        }
                        if how > 2 {
                            rx_pending = false;
                            rp.set_woken();
                        }
                    }
                    Ok(None) => {
                        rx_pending = false;
                        case.check(q.is_empty(), || format!("end of channel with {} messages undelivered", q.len()));
                        case.check(!open, || "end of channel while it is open".into());
                        rx_end = true;
                        case.check(r.terminated(), || "is_terminated false after the end".into());
                    }
                    Err(()) => {
                        case.check(q.is_empty(), || format!("nothing received with {} messages queued", q.len()));
                        case.check(open, || "waiting on a closed and empty channel".into());
                        if how <= 2 {
                            rx_pending = true;
                        }
                    }
                }
                if r.terminated() {
                    case.check(!open && q.is_empty(), || "is_terminated on a channel that can still deliver".into());
                }
            }
            10 if senders.len() < 4 && !senders.is_empty() => {
                let i = case.below(senders.len());
                let tx = senders[i].tx.dup();
                let connected = senders[i].connected;
                case.log(|| format!("clone s{} -> s{}", senders[i].id, ever));
                senders.push(SeqSender { tx, id: ever, connected, p: Poller::new(case), pending: false, ready: false });
                ever += 1;
            }
            11 if !senders.is_empty() => {
                let i = case.below(senders.len());
                let how = case.below(3);
                case.log(|| format!("s{} {}", senders[i].id, ["drop", "disconnect", "sink close"][how]));
                match how {
                    0 => {
                        senders.swap_remove(i);
                    }
                    1 => {
                        senders[i].tx.disconnect();
                        senders[i].connected = false;
                        senders[i].pending = false;
                    }
                    _ => {
                        let s = &mut senders[i];
                        let tx = &mut s.tx;
                        let mut p = Poller::new(case);
                        match p.poll(|cx| tx.sink_close(cx)) {
                            Poll::Ready(Ok(())) => {}
                            o => case.fail(format!("sink close: {o:?}")),
                        }
                        s.connected = false;
                        s.pending = false;
                    }
                }
                if senders.iter().all(|s| !s.connected) {
                    open = false;
                }
            }
            12 if rx.is_some() && case.chance(1, 3) => {
                case.log(|| "rx.close()".into());
                rx.as_mut().unwrap().close();
                open = false;
                // The receiver closed it itself; it is not woken for that.
                if rx_pending && q.is_empty() {
                    rp.set_woken();
                }
            }
            13 if case.chance(1, 5) => {
                case.log(|| "drop rx".into());
                rx = None;
                open = false;
                q.clear();
                if judge == Judge::Close {
                    // Everything still queued is dropped with the receiver.
                    case.eq(case.live(), 0, "messages alive after the receiver is gone");
                }
            }
            14 if !senders.is_empty() && case.chance(1, 4) => {
                let i = case.below(senders.len());
                if senders[i].connected {
                    case.log(|| format!("s{}.close_channel()", senders[i].id));
                    senders[i].tx.close_channel();
                    if open {
                        sender_closed = true;
                    }
                    open = false;
                }
            }
            // queries
            15 => {
                if judge == Judge::Close || judge == Judge::Delivery {
                    for s in &senders {
                        case.eq(s.tx.is_closed(), !open || !s.connected, "is_closed");
                        if let (Tx::U(u), true) = (&s.tx, s.connected) {
                            case.eq(u.len(), q.len(), "len");
                            case.eq(u.is_empty(), q.is_empty(), "is_empty");
                        }
                        if let Some(r) = &rx {
                            case.eq(s.tx.connected(r), s.connected && !rx_end, "is_connected_to");
                        }
                        for o in &senders {
                            case.eq(s.tx.same(&o.tx), s.connected && o.connected, "same_receiver");
                            if s.connected && o.connected {
                                case.eq(s.tx.hash(), o.tx.hash(), "hash_receiver");
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        // A receiver that waits is woken by whatever ends its wait.
        if rx_pending && rx.is_some() && (!q.is_empty() || !open) {
            case.check(rp.woken(), || "the pending receiver was not woken by a message or by the close".into());
        }
        // So is a sender that waits, once a buffer slot is free or the receiver closed.
        if judge != Judge::Delivery {
            for s in &senders {
                if s.pending && s.connected && !sender_closed {
                    if let Some(b) = buffer {
                        if q.len() <= b || !open {
                            case.check(s.p.woken(), || format!("s{} waits for capacity that is there and was not woken", s.id));
                        }
                    }
                }
            }
        }
    }
    // Drain: everything accepted and not yet delivered comes out, in order.
    if let Some(mut r) = rx {
        let mut got = vec![];
        loop {
            match r.try_recv() {
                Ok(t) => got.push(t.v),
                Err(e) if e.is_empty() => {
                    case.check(open, || "empty, not closed, after all senders are gone".into());
                    break;
                }
                Err(_) => {
                    case.check(!open, || "closed while open".into());
                    break;
                }
            }
        }
        case.eq(got, q.iter().map(|m| m.0).collect::<Vec<_>>(), "final drain");
        if judge == Judge::Capacity {
            // Drained: every sender is welcome again.
            for s in &mut senders {
                if s.connected && open {
                    let r = s.tx.try_send(case.tok(0));
                    case.check(r.is_ok(), || "a drained channel rejects a message".into());
                }
            }
        }
        let had = senders.len();
        drop(senders);
        if open && had > 0 && judge != Judge::Capacity {
            let mut p = Poller::new(case);
            match p.poll(|cx| r.poll_next(cx)) {
                Poll::Ready(None) => {}
                o => case.fail(format!("all senders gone, drained, but the receiver got {o:?}")),
            }
        }
        drop(r);
    } else {
        drop(senders);
    }
    case.no_leaks("mpsc");
    if recvs >= 2 && (all.len() >= 2) && (parked_seen || judge == Judge::Delivery) {
        case.nontrivial();
    }
    case.label_if(parked_seen, "a_sender_had_to_wait");
    case.label_if(sender_closed, "closed_by_sender");
}

fn seq_delivery(c: &Case) {
    seq(c, Judge::Delivery)
}
fn seq_capacity(c: &Case) {
    seq(c, Judge::Capacity)
}
fn seq_close(c: &Case) {
    seq(c, Judge::Close)
}

// ------------------------------------------------------------- thread schedules

#[derive(Default)]
struct Log {
    /// (value, started, finished) for messages that were accepted.
    sent: Vec<(u64, u64, u64)>,
    rejected: Vec<(u64, u64)>, // value, started
    got: Vec<u64>,
    end: bool,
    closed_at: Option<u64>,
    dropped: bool,
}

struct Shared {
    log: Mutex<Log>,
    clock: AtomicUsize,
    accepted: AtomicUsize,
}

// The bookkeeping below is ordinary std code: it is not a scheduling point.
// Under Miri the clock is Relaxed and results are merged at the end of a body.
impl Shared {
    fn tick(&self) -> u64 {
        self.clock.fetch_add(1, Ordering::Relaxed) as u64
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Ending {
    Drain,
    CloseThenDrain(usize),
    Drop(usize),
}

fn par_mpsc(case: &Case, ending_kinds: &[usize]) {
    let (tx, rx, buffer) = make(case);
    let nsend = case.range(1, if cfg!(miri) { 2 } else { 3 });
    let max_msgs = if cfg!(miri) { 3 } else { 4 };
    let sh = Arc::new(Shared { log: Default::default(), clock: AtomicUsize::new(0), accepted: AtomicUsize::new(0) });
    let ending = match *case.pick(ending_kinds) {
        0 => Ending::Drain,
        1 => Ending::CloseThenDrain(case.range(0, 3)),
        _ => Ending::Drop(case.range(0, 3)),
    };
    let mut bodies: Vec<(String, Body)> = vec![];
    // Senders that outlive a receiver which closed or went away.
    let kept: Arc<Mutex<Vec<Tx>>> = Default::default();
    let mut txs: Vec<Tx> = (0..nsend - 1).map(|_| tx.dup()).collect();
    txs.push(tx);
    let mut total = 0usize;
    // A sender may also hand a clone to a late thread, or close the channel.
    let closer = case.chance(1, 10);
    for (i, mut tx) in txs.into_iter().enumerate() {
        let n = case.range(0, max_msgs);
        total += n;
        let toks: Vec<Tok> = (0..n).map(|k| case.tok((i * 100 + k) as u64)).collect();
        let how: Vec<usize> = (0..n).map(|_| case.below(4)).collect();
        let clone_at = case.below(6);
        let mut end = case.below(4);
        if ending != Ending::Drain && case.chance(1, 3) {
            end = 4;
        }
        let kept = kept.clone();
        let sh = sh.clone();
        case.log(|| format!("sender {i}: {n} messages, modes {how:?}, clone_at {clone_at}, end {end}"));
        bodies.push((
            format!("sender{i}"),
            body(move |th: &Th| {
                let mut sent = vec![];
                let mut rejected = vec![];
                let mut alive = true;
                for (k, t) in toks.into_iter().enumerate() {
                    let v = t.v;
                    let t0 = sh.tick();
                    if k == clone_at {
                        let c = tx.dup();
                        tx = c;
                    }
                    let mut t = Some(t);
                    if !alive {
                        // After a disconnect every further send fails.
                        match tx.try_send(t.take().unwrap()) {
                            Ok(()) => th.case.fail(format!("sender{i}: send accepted after the channel was closed")),
                            Err((_, b)) => th.check(b.v == v, || "handed back another message".into()),
                        }
                        rejected.push((v, t0));
                        continue;
                    }
                    let ok = match how[k] {
                        // spin on try_send
                        0 => loop {
                            match tx.try_send(t.take().unwrap()) {
                                Ok(()) => break true,
                                Err((SendRes::Full, b)) => {
                                    th.check(b.v == v, || "handed back another message".into());
                                    t = Some(b);
                                    // Wait for capacity the proper way.
                                    if th.block_on_fn(|cx| tx.poll_ready(cx, false)).is_err() {
                                        break false;
                                    }
                                }
                                Err((_, b)) => {
                                    th.check(b.v == v, || "handed back another message".into());
                                    break false;
                                }
                            }
                        },
                        1 | 2 => {
                            if th.block_on_fn(|cx| tx.poll_ready(cx, how[k] == 2)).is_err() {
                                false
                            } else {
                                match tx.start_send(t.take().unwrap(), how[k] == 2) {
                                    Ok(()) => true,
                                    Err(e) => {
                                        th.check(e.is_disconnected(), || "start_send after poll_ready: full".into());
                                        false
                                    }
                                }
                            }
                        }
                        // the Sink `send` future (ready, send, flush)
                        _ => match &mut tx {
                            Tx::B(s) => th.block_on(s.send(t.take().unwrap())).is_ok(),
                            Tx::U(s) => th.block_on(s.send(t.take().unwrap())).is_ok(),
                        },
                    };
                    let t1 = sh.tick();
                    if ok {
                        sent.push((v, t0, t1));
                        sh.accepted.fetch_add(1, Ordering::Relaxed);
                        th.log(|| format!("sender{i} sent {v}"));
                    } else {
                        th.log(|| format!("sender{i} rejected {v}"));
                        rejected.push((v, t0));
                        alive = false;
                    }
                    drop(t);
                }
                match end {
                    4 => kept.lock().unwrap().push(tx),
                    0 => drop(tx),
                    1 => {
                        tx.disconnect();
                        drop(tx)
                    }
                    2 => {
                        let mut tx = tx;
                        let _ = th.block_on_fn(|cx| tx.sink_close(cx));
                    }
                    _ => {
                        if closer {
                            tx.close_channel();
                        }
                        drop(tx)
                    }
                }
                let mut l = sh.log.lock().unwrap();
                l.sent.extend(sent);
                l.rejected.extend(rejected);
            }),
        ));
    }
    // With senders that stay, only what they send can be waited for.
    let ending = match ending {
        Ending::CloseThenDrain(n) => Ending::CloseThenDrain(n.min(total)),
        Ending::Drop(n) => Ending::Drop(n.min(total)),
        e => e,
    };
    {
        let sh = sh.clone();
        let mut rx = rx;
        bodies.push((
            "receiver".into(),
            body(move |th: &Th| {
                let mut got = vec![];
                let mut end = false;
                let mut closed_at = None;
                let mut dropped = false;
                loop {
                    if let Ending::CloseThenDrain(n) = ending {
                        if closed_at.is_none() && got.len() >= n {
                            rx.close();
                            closed_at = Some(sh.tick());
                        }
                    }
                    if let Ending::Drop(n) = ending {
                        if got.len() >= n {
                            drop(rx);
                            dropped = true;
                            break;
                        }
                    }
                    let m = match th.below(6) {
                        0..=2 => th.block_on_fn(|cx| rx.poll_next(cx)),
                        3 => th.block_on_fn(|cx| rx.poll_recv(cx)),
                        _ => match rx.try_recv() {
                            Ok(t) => Some(t),
                            Err(e) if e.is_closed() => None,
                            Err(_) => {
                                th.pause();
                                continue;
                            }
                        },
                    };
                    match m {
                        Some(t) => {
                            got.push(t.v);
                            th.log(|| format!("receiver got {}", t.v));
                            if let Some(b) = buffer {
                                let acc = sh.accepted.load(Ordering::Relaxed);
                                // Accepted sends not yet received never exceed the capacity
                                // (clones made above come and go one by one).
                                let cap = b + 2 * 3;
                                th.check(acc <= got.len() + cap, || format!("{acc} accepted, {} received, buffer {b}", got.len()));
                            }
                        }
                        None => {
                            end = true;
                            break;
                        }
                    }
                }
                let mut l = sh.log.lock().unwrap();
                l.got = got;
                l.end = end;
                l.closed_at = closed_at;
                l.dropped = dropped;
            }),
        ));
    }
    par::run(case, bodies);
    let kept = std::mem::take(&mut *kept.lock().unwrap());
    if !kept.is_empty() {
        case.label("sender_outlives_receiver");
        case.eq(case.live(), 0, "messages still held by a channel whose receiver took or discarded everything");
        for mut tx in kept {
            case.check(tx.is_closed(), || "a sender does not see that the channel is closed".into());
            match tx.try_send(case.tok(9999)) {
                Ok(()) => case.fail("send accepted by a closed channel"),
                Err((r, b)) => {
                    case.eq(r, SendRes::Disc, "try_send on a closed channel");
                    case.eq(b.v, 9999, "message handed back");
                }
            }
        }
    }
    let l = sh.log.lock().unwrap();
    case.log(|| format!("sent {:?} rejected {:?} got {:?}", l.sent, l.rejected, l.got));
    // No invention, no duplication.
    let sent: HashSet<u64> = l.sent.iter().map(|s| s.0).collect();
    let mut seen = HashSet::new();
    for v in &l.got {
        case.check(sent.contains(v), || format!("received {v}, which no send reported as accepted"));
        case.check(seen.insert(*v), || format!("received {v} twice"));
    }
    // No loss: what was accepted arrives, unless the receiver went away.
    if l.end {
        for s in &l.sent {
            case.check(seen.contains(&s.0), || format!("{} was accepted and the receiver read to the end, but never got it", s.0));
        }
    }
    if ending == Ending::Drain && !closer {
        case.eq(l.rejected.len(), 0, "rejected sends on a channel that nobody closed");
        case.eq(l.got.len(), total, "delivered messages");
    }
    // Order: per sender, and between senders when one send finished before the other began.
    let stamp: HashMap<u64, (u64, u64)> = l.sent.iter().map(|s| (s.0, (s.1, s.2))).collect();
    for (i, a) in l.got.iter().enumerate() {
        for b in &l.got[i + 1..] {
            case.check(!(a / 100 == b / 100 && a > b), || format!("messages {b} and {a} of one sender arrived out of order"));
            if !cfg!(miri) {
                case.check(!(stamp[b].1 < stamp[a].0), || format!("{b} was fully sent before {a} began, but {a} arrived first"));
            }
        }
    }
    // After close() returned nothing is accepted any more.
    if let (Some(c), false) = (l.closed_at, cfg!(miri)) {
        for s in &l.sent {
            case.check(s.1 < c, || format!("{} was sent after close() had returned, and accepted", s.0));
        }
    }
    drop(l);
    case.no_leaks("mpsc under threads");
    if total >= 2 && nsend >= 1 {
        case.nontrivial();
    }
    case.label_if(ending != Ending::Drain, "receiver_ends_early");
    case.label_if(buffer == Some(0), "rendezvous_buffer_0");
}

fn par_delivery(c: &Case) {
    par_mpsc(c, &[0, 0, 0, 1])
}
fn par_capacity(c: &Case) {
    par_bounded(c)
}
fn par_close(c: &Case) {
    par_mpsc(c, &[1, 2])
}

/// Backpressure under threads: senders keep the channel full; the number of
/// messages in it stays within `buffer + senders` and everyone gets through.
fn par_bounded(case: &Case) {
    let b = case.range(0, 2);
    let n = case.range(1, if cfg!(miri) { 2 } else { 3 });
    let (tx, mut rx) = mpsc::channel::<Tok>(b);
    let acc = Arc::new(AtomicUsize::new(0));
    let rec = Arc::new(AtomicUsize::new(0));
    let mut bodies: Vec<(String, Body)> = vec![];
    let mut txs: Vec<_> = (1..n).map(|_| tx.clone()).collect();
    txs.push(tx);
    let mut total = 0;
    for (i, mut tx) in txs.into_iter().enumerate() {
        let k = case.range(1, 3);
        total += k;
        let toks: Vec<Tok> = (0..k).map(|j| case.tok((i * 100 + j) as u64)).collect();
        let polls: Vec<usize> = (0..k).map(|_| case.below(3)).collect();
        let (acc, rec) = (acc.clone(), rec.clone());
        bodies.push((
            format!("sender{i}"),
            body(move |th| {
                for (t, how) in toks.into_iter().zip(polls) {
                    let mut t = Some(t);
                    loop {
                        if how == 0 {
                            match tx.try_send(t.take().unwrap()) {
                                Ok(()) => break,
                                Err(e) => {
                                    th.check(e.is_full(), || "disconnected".into());
                                    t = Some(e.into_inner());
                                }
                            }
                        }
                        th.block_on_fn(|cx| tx.poll_ready(cx)).expect("open");
                        if how == 1 || th.chance(1, 2) {
                            // Ready promises room for this message.
                            tx.start_send(t.take().unwrap()).expect("start_send after poll_ready");
                            break;
                        }
                    }
                    // Received before: an underestimate of what has left the channel
                    // would only loosen the bound, so read it last.
                    let a = acc.fetch_add(1, Ordering::SeqCst) + 1;
                    let r = rec.load(Ordering::SeqCst);
                    // A receive is counted after the fact; one may be in flight.
                    th.check(a <= r + 1 + b + n, || format!("{a} accepted, {r} received: more than buffer {b} + senders {n} in the channel"));
                }
            }),
        ));
    }
    let late = case.range(0, 20);
    bodies.push((
        "receiver".into(),
        body(move |th| {
            for _ in 0..late {
                th.point();
            }
            loop {
                match th.block_on(rx.next()) {
                    Some(_) => {
                        rec.fetch_add(1, Ordering::SeqCst);
                    }
                    None => break,
                }
            }
            th.check(rec.load(Ordering::SeqCst) == total, || "lost messages".into());
        }),
    ));
    par::run(case, bodies);
    case.no_leaks("bounded mpsc");
    if total > b {
        case.nontrivial();
    }
}

/// Tasks on one executor, senders through `Sink` combinators.
fn sim_tasks(case: &Case) {
    let (tx, rx, _) = make(case);
    let got = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let n = case.range(1, 4);
    let mut want = vec![];
    let mut sim = Sim::new(case);
    for i in 0..n {
        let tx = tx.dup();
        let k = case.range(0, 4);
        let msgs: Vec<Tok> = (0..k).map(|j| case.tok((i * 100 + j) as u64)).collect();
        want.extend(msgs.iter().map(|m| m.v));
        let all = case.bool();
        let w = sim.world.clone();
        let evs: Vec<_> = (0..k).map(|_| if case.chance(1, 3) { Some(w.event("sender waits")) } else { None }).collect();
        let ev = evs.clone();
        sim.spawn(format!("sender{i}"), async move {
            match (tx, all) {
                (Tx::B(mut s), true) => {
                    s.send_all(&mut futures::stream::iter(msgs.into_iter().map(Ok))).await.unwrap();
                }
                (Tx::U(mut s), true) => {
                    s.send_all(&mut futures::stream::iter(msgs.into_iter().map(Ok))).await.unwrap();
                }
                (Tx::B(mut s), false) => {
                    for (m, e) in msgs.into_iter().zip(ev) {
                        if let Some(e) = e {
                            e.await
                        }
                        s.feed(m).await.unwrap();
                    }
                    s.flush().await.unwrap();
                }
                (Tx::U(mut s), false) => {
                    for (m, e) in msgs.into_iter().zip(ev) {
                        if let Some(e) = e {
                            e.await
                        }
                        s.send(m).await.unwrap();
                    }
                }
            }
        });
    }
    drop(tx);
    let g = got.clone();
    let w = sim.world.clone();
    let slow = case.bool();
    let c2 = case.clone();
    sim.spawn("receiver", async move {
        let mut rx = rx;
        loop {
            if slow && c2.chance(1, 3) {
                w.event("receiver waits").await;
            }
            let m = std::future::poll_fn(|cx| rx.poll_next(cx)).await;
            match m {
                Some(t) => g.borrow_mut().push(t.v),
                None => break,
            }
        }
    });
    sim.run("mpsc tasks");
    drop(sim);
    let got = got.borrow().clone();
    for i in 0..n as u64 {
        let a: Vec<u64> = got.iter().copied().filter(|v| v / 100 == i).collect();
        let b: Vec<u64> = want.iter().copied().filter(|v| v / 100 == i).collect();
        case.eq(a, b, "messages of one sender");
    }
    case.no_leaks("mpsc tasks");
    if want.len() >= 2 {
        case.nontrivial();
    }
}

// ------------------------------------------------------------------- oneshot

fn oneshot_seq(case: &Case) {
    let (tx, rx) = oneshot::channel::<Tok>();
    let mut tx = Some(tx);
    let mut rx = Some(rx);
    let mut tp = Poller::new(case);
    let mut rp = Poller::new(case);
    let (mut t_pending, mut r_pending) = (false, false);
    let mut sent: Option<u64> = None; // accepted and not yet taken
    let mut closed = false; // by the receiver (close or drop)
    let mut taken = false;
    let mut r_done = false;
    for _ in 0..case.range(1, 12) {
        case.step();
        match case.below(10) {
            0 if tx.is_some() => {
                let v = case.below(100) as u64;
                let r = tx.take().unwrap().send(case.tok(v));
                case.log(|| format!("send({v}) -> {r:?}"));
                match r {
                    Ok(()) => {
                        case.check(!closed, || "send accepted after the receiver had closed".into());
                        sent = Some(v)
                    }
                    Err(t) => {
                        case.eq(t.v, v, "value handed back");
                        case.check(closed, || "send rejected although the receiver is open".into());
                    }
                }
            }
            1 if tx.is_some() => {
                case.log(|| "drop tx".into());
                tx = None;
            }
            2 if tx.is_some() => {
                let woken = tp.woken();
                let t = tx.as_mut().unwrap();
                let r = if case.bool() {
                    tp.poll(|cx| t.poll_canceled(cx))
                } else {
                    tp.poll(|cx| pin!(t.cancellation()).poll(cx))
                };
                case.log(|| format!("poll_canceled -> {r:?}"));
                case.eq(r.is_ready(), closed, "poll_canceled is ready iff the receiver is gone");
                if r.is_ready() && t_pending && !woken {
                    case.fail("cancellation became ready without a wakeup");
                }
                t_pending = r.is_pending();
            }
            3 if tx.is_some() => {
                case.eq(tx.as_ref().unwrap().is_canceled(), closed, "is_canceled");
                if let Some(r) = &rx {
                    case.check(tx.as_ref().unwrap().is_connected_to(r), || "is_connected_to".into());
                    let (_, o) = oneshot::channel::<Tok>();
                    case.check(!tx.as_ref().unwrap().is_connected_to(&o), || "connected to another receiver".into());
                }
            }
            4 | 5 if rx.is_some() && !r_done => {
                let woken = rp.woken();
                let r = rp.poll(|cx| Pin::new(rx.as_mut().unwrap()).poll(cx));
                case.log(|| format!("poll rx -> {r:?}"));
                if r.is_ready() && r_pending && !woken && !closed {
                    case.fail("the receiver became ready without a wakeup");
                }
                r_pending = r.is_pending();
                match r {
                    Poll::Ready(Ok(t)) => {
                        case.eq(Some(t.v), sent, "value received");
                        sent = None;
                        taken = true;
                        r_done = true;
                    }
                    Poll::Ready(Err(_)) => {
                        case.check(sent.is_none() && (tx.is_none() || closed), || "canceled while the sender is alive or a value was sent".into());
                        r_done = true;
                    }
                    Poll::Pending => case.check(tx.is_some() && !closed, || "pending although the sender is done or the receiver closed".into()),
                }
            }
            6 if rx.is_some() => {
                let r = rx.as_mut().unwrap().try_recv();
                case.log(|| format!("try_recv -> {r:?}"));
                match r {
                    Ok(Some(t)) => {
                        case.eq(Some(t.v), sent, "value received");
                        sent = None;
                        taken = true;
                        r_done = true;
                    }
                    Ok(None) => case.check(tx.is_some() && !closed, || "try_recv: empty although complete".into()),
                    Err(_) => case.check(sent.is_none() && (tx.is_none() || closed), || "try_recv: canceled".into()),
                }
            }
            7 if rx.is_some() && case.bool() => {
                case.log(|| "rx.close()".into());
                rx.as_mut().unwrap().close();
                closed = true;
            }
            8 if rx.is_some() && case.bool() => {
                case.log(|| "drop rx".into());
                rx = None;
                closed = true;
                sent = None;
                case.eq(case.live(), 0, "value alive after both the send and the receiver's drop");
            }
            9 if rx.is_some() => {
                let t = rx.as_ref().unwrap().is_terminated();
                // Terminated: a poll would not deliver a value any more.
                let complete = tx.is_none() || closed;
                case.eq(t, complete && sent.is_none(), "is_terminated");
            }
            _ => {}
        }
        if r_pending && rx.is_some() && tx.is_none() {
            case.check(rp.woken(), || "the pending receiver was not woken when the sender finished".into());
        }
        if t_pending && tx.is_some() && closed {
            case.check(tp.woken(), || "the sender waiting for cancellation was not woken".into());
        }
    }
    case.label_if(taken, "value_received");
    case.label_if(closed, "receiver_closed");
    if taken || closed {
        case.nontrivial()
    }
    for (gone, p, who) in [(tx.is_none(), tp, "sender"), (rx.is_none(), rp, "receiver")] {
        let f = p.flag.clone();
        drop(p);
        case.check(!gone || Arc::strong_count(&f) == 1, || format!("the waker of the {who} that is gone is still held"));
    }
    drop((tx, rx));
    case.no_leaks("oneshot");
}

fn oneshot_par(case: &Case) {
    let (mut tx, mut rx) = oneshot::channel::<Tok>();
    // Sender: 0 send, 1 drop, 2 wait for cancellation (only if the receiver will go), 3 poll canceled once then send
    let rmode = case.below(6);
    let receiver_goes = rmode >= 3;
    let smode = if receiver_goes { case.below(4) } else { *case.pick(&[0, 0, 1, 3]) };
    let res: Arc<Mutex<(Option<Result<(), u64>>, Option<Result<u64, ()>>, bool)>> = Default::default();
    let tok = case.tok(7);
    let (s1, r1) = (res.clone(), res.clone());
    let delay = (case.range(0, 6), case.range(0, 6));
    case.log(|| format!("sender mode {smode}, receiver mode {rmode}"));
    let bodies: Vec<(String, Body)> = vec![
        (
            "sender".into(),
            body(move |th| {
                for _ in 0..delay.0 {
                    th.point()
                }
                match smode {
                    0 | 3 => {
                        if smode == 3 {
                            let _ = th.poll_cx(|cx| tx.poll_canceled(cx));
                            if th.below(2) == 0 {
                                let _ = tx.is_canceled();
                            }
                        }
                        let r = tx.send(tok).map_err(|t| t.v);
                        th.log(|| format!("send -> {r:?}"));
                        s1.lock().unwrap().0 = Some(r);
                    }
                    1 => drop(tx),
                    _ => {
                        th.block_on(tx.cancellation());
                        th.check(tx.is_canceled(), || "cancellation resolved but is_canceled is false".into());
                        let r = tx.send(tok).map_err(|t| t.v);
                        th.check(r == Err(7), || "send after cancellation succeeded".into());
                        s1.lock().unwrap().0 = Some(r);
                    }
                }
            }),
        ),
        (
            "receiver".into(),
            body(move |th| {
                for _ in 0..delay.1 {
                    th.point()
                }
                let out = match rmode {
                    0 | 1 => Some(th.block_on(&mut rx).map(|t| t.v).map_err(|_| ())),
                    2 => loop {
                        match rx.try_recv() {
                            Ok(Some(t)) => break Some(Ok(t.v)),
                            Ok(None) => th.pause(),
                            Err(_) => break Some(Err(())),
                        }
                    },
                    3 => {
                        // poll a few times, then drop
                        for _ in 0..th.below(3) {
                            if let Poll::Ready(r) = th.poll(Pin::new(&mut rx)) {
                                r1.lock().unwrap().1 = Some(r.map(|t| t.v).map_err(|_| ()));
                                return;
                            }
                            th.point();
                        }
                        None
                    }
                    _ => {
                        if rmode == 5 {
                            let _ = th.poll(Pin::new(&mut rx)).map(|r| {
                                r1.lock().unwrap().1 = Some(r.map(|t| t.v).map_err(|_| ()));
                            });
                            if r1.lock().unwrap().1.is_some() {
                                return;
                            }
                        }
                        rx.close();
                        r1.lock().unwrap().2 = true;
                        th.point();
                        let x = if th.below(2) == 0 {
                            match th.poll(Pin::new(&mut rx)) {
                                Poll::Ready(r) => r.map(|t| t.v).map_err(|_| ()),
                                Poll::Pending => th.case.fail("pending after close()"),
                            }
                        } else {
                            match rx.try_recv() {
                                Ok(Some(t)) => Ok(t.v),
                                Ok(None) => th.case.fail("try_recv empty after close()"),
                                Err(_) => Err(()),
                            }
                        };
                        Some(x)
                    }
                };
                th.log(|| format!("receiver -> {out:?}"));
                r1.lock().unwrap().1 = out;
            }),
        ),
    ];
    par::run(case, bodies);
    let (s, r, _closed) = res.lock().unwrap().clone();
    match (s, r) {
        (Some(Ok(())), Some(Err(()))) => case.fail("send reported success, the receiver was told it is canceled"),
        (Some(Err(_)), Some(Ok(_))) => case.fail("send handed the value back and the receiver got it too"),
        (Some(Err(_)), _) if !receiver_goes => case.fail("send failed although the receiver was waiting"),
        (None, Some(Ok(_))) => case.fail("received a value nobody sent"),
        (_, Some(Ok(v))) => case.eq(v, 7, "value"),
        (_, None) if !receiver_goes => case.fail("receiver without a result"),
        _ => {}
    }
    case.no_leaks("oneshot under threads");
    case.label_if(matches!(s, Some(Err(_))), "send_rejected");
    case.label_if(matches!(r, Some(Ok(_))), "delivered");
    case.nontrivial();
}

// --------------------------------------------------------------- AtomicWaker

fn aw_seq(case: &Case) {
    let aw = AtomicWaker::new();
    let n = 3;
    let mut ps: Vec<Poller> = (0..n).map(|_| Poller::new(case)).collect();
    for p in &mut ps {
        p.change_wakers = false;
    }
    let mut reg: Option<usize> = None;
    let counts = |ps: &Vec<Poller>| ps.iter().map(|p| p.flag.total.load(Ordering::SeqCst)).collect::<Vec<_>>();
    let mut hits = 0;
    for _ in 0..case.range(1, 16) {
        let before = counts(&ps);
        match case.below(4) {
            0 | 1 => {
                let i = case.below(n);
                case.log(|| format!("register {i}"));
                ps[i].poll_cx(|cx| aw.register(cx.waker()));
                reg = Some(i);
                case.eq(counts(&ps), before, "register alone wakes nobody");
            }
            2 => {
                case.log(|| "wake".into());
                aw.wake();
                let mut want = before;
                if let Some(i) = reg.take() {
                    want[i] += 1;
                    hits += 1;
                }
                case.eq(counts(&ps), want, "wake notifies exactly the last registered waker, once");
            }
            _ => {
                case.log(|| "take".into());
                let w = aw.take();
                case.eq(w.is_some(), reg.is_some(), "take");
                case.eq(counts(&ps), before.clone(), "take wakes nobody");
                if let Some(w) = w {
                    w.wake();
                    let mut want = before;
                    want[reg.take().unwrap()] += 1;
                    case.eq(counts(&ps), want, "the taken waker is the last registered one");
                    hits += 1;
                }
            }
        }
    }
    if hits > 0 {
        case.nontrivial()
    }
}

fn aw_par(case: &Case) {
    let wakers = case.range(1, 3);
    let rounds = case.range(1, 3);
    struct S {
        aw: AtomicWaker,
        n: AtomicUsize,
    }
    let s = Arc::new(S { aw: AtomicWaker::new(), n: AtomicUsize::new(0) });
    let mut bodies: Vec<(String, Body)> = vec![];
    for i in 0..wakers {
        let s = s.clone();
        let take = case.chance(1, 3);
        bodies.push((
            format!("waker{i}"),
            body(move |th| {
                for _ in 0..rounds {
                    th.point();
                    s.n.fetch_add(1, Ordering::Relaxed);
                    if take {
                        if let Some(w) = s.aw.take() {
                            th.point();
                            w.wake()
                        }
                    } else {
                        s.aw.wake();
                    }
                }
            }),
        ));
    }
    let total = wakers * rounds;
    {
        let s = s.clone();
        bodies.push((
            "task".into(),
            body(move |th| {
                let mut seen = 0;
                while seen < total {
                    seen = th.block_on_fn(|cx| {
                        s.aw.register(cx.waker());
                        let n = s.n.load(Ordering::Relaxed);
                        if n > seen {
                            Poll::Ready(n)
                        } else {
                            Poll::Pending
                        }
                    });
                }
            }),
        ));
    }
    par::run(case, bodies);
    case.nontrivial();
}

/// What the waking side wrote before `wake` is visible to the task that
/// `wake` made run: plain data handed over, checked by Miri's race detector.
fn aw_publish(case: &Case) {
    struct S {
        aw: AtomicWaker,
        flag: AtomicBool,
    }
    for _ in 0..if cfg!(miri) { 6 } else { 1 } {
        let s = Arc::new(S { aw: AtomicWaker::new(), flag: AtomicBool::new(false) });
        let (a, b) = (s.clone(), s.clone());
        // The wake comes in the middle of the registration.
        let inside = Arc::new(AtomicBool::new(false));
        let aim = cfg!(miri) && case.chance(2, 3);
        let hook = inside.clone();
        par::run(
            case,
            vec![
                (
                    "waker".into(),
                    body(move |th| {
                        th.point();
                        let mut k = 0;
                        while aim && k < 200 && !inside.load(Ordering::Relaxed) {
                            k += 1;
                            th.pause();
                        }
                        a.flag.store(true, Ordering::Relaxed);
                        a.aw.wake();
                    }),
                ),
                (
                    "task".into(),
                    body(move |th| {
                        if aim {
                            par::IN_CLONE.with(|h| *h.borrow_mut() = Some(hook));
                        }
                        th.block_on_fn(|cx| {
                            if b.flag.load(Ordering::Relaxed) {
                                return Poll::Ready(());
                            }
                            b.aw.register(cx.waker());
                            if b.flag.load(Ordering::Relaxed) {
                                Poll::Ready(())
                            } else {
                                Poll::Pending
                            }
                        })
                    }),
                ),
            ],
        );
    }
    case.nontrivial();
}

/// Racing registrations: no memory error, and the winner is still notified.
fn aw_race(case: &Case) {
    struct S {
        aw: AtomicWaker,
    }
    let s = Arc::new(S { aw: AtomicWaker::new() });
    let mut bodies: Vec<(String, Body)> = vec![];
    for i in 0..case.range(2, 3) {
        let s = s.clone();
        let ops: Vec<usize> = (0..case.range(1, 3)).map(|_| case.below(3)).collect();
        bodies.push((
            format!("t{i}"),
            body(move |th| {
                for o in ops {
                    match o {
                        0 => th.poll_cx(|cx| s.aw.register(cx.waker())),
                        1 => s.aw.wake(),
                        _ => drop(s.aw.take()),
                    }
                }
            }),
        ));
    }
    par::run(case, bodies);
    // Afterwards it works as new.
    let mut p = Poller::new(case);
    p.poll_cx(|cx| s.aw.register(cx.waker()));
    s.aw.wake();
    case.check(p.woken(), || "an AtomicWaker stopped working after racing calls".into());
    case.nontrivial();
}

fn main() {
    main_for(vec![
        Prop {
            id: "C01",
            rule: "random op histories on bounded/unbounded channels vs a FIFO model, random thread schedules of 1-3 senders and a receiver, and task interleavings; non-trivial: at least two messages sent and received",
            subs: vec![
                sub("seq", seq_delivery, 800_000, 20_000_000),
                sub("tasks", sim_tasks, 2_000_000, 20_000_000),
                sub("threads", par_delivery, 60_000, 1_200_000).miri(160, 3000),
            ],
        },
        Prop {
            id: "C02",
            rule: "random op histories vs the capacity model, and thread schedules that keep a bounded channel full; non-trivial: a sender had to wait (histories) or more messages than buffer (threads)",
            subs: vec![
                sub("seq", seq_capacity, 800_000, 20_000_000),
                sub("threads", par_capacity, 80_000, 1_600_000).miri(160, 3000),
            ],
        },
        Prop {
            id: "C03",
            rule: "random op histories with close/drop/disconnect vs the open/closed model, and thread schedules where the receiver closes or goes away; non-trivial: at least two messages and a wait, or an early end",
            subs: vec![
                sub("seq", seq_close, 800_000, 20_000_000),
                sub("threads", par_close, 80_000, 1_600_000).miri(160, 3000),
            ],
        },
        Prop {
            id: "C04",
            rule: "random op histories on one oneshot channel vs a model, and thread schedules of the two halves in all modes; non-trivial: a value was received or the receiver closed (histories), every schedule (threads)",
            subs: vec![
                sub("seq", oneshot_seq, 1_800_000, 18_000_000),
                sub("threads", oneshot_par, 120_000, 3_000_000).miri(240, 4000),
            ],
        },
        Prop {
            id: "C05",
            rule: "random register/wake/take histories vs a one-slot model, and thread schedules of 1-3 wakers against one task; non-trivial: a registered waker was notified (histories), every schedule (threads)",
            subs: vec![
                sub("seq", aw_seq, 1_500_000, 15_000_000),
                sub("threads", aw_par, 120_000, 3_000_000).miri(160, 3000),
                sub("publish", aw_publish, 20_000, 200_000).miri(240, 4000),
                sub("race", aw_race, 60_000, 1_000_000).miri(160, 3000),
            ],
        },
    ]);
}
