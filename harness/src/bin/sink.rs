//! Sink adaptors against a model of which items reach which sink.
use futures::future::{FusedFuture, Future, FutureExt, TryFutureExt};
use futures::sink::{self, Sink, SinkExt};
use futures::stream::{FusedStream, Stream, StreamExt, TryStreamExt};
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use vh::case::{Case, Tok};
use vh::leaf::{gates, Gate, LFut, LSink, LStream, LeafSt, SStep, SinkSt};
use vh::runner::{main_for, sub, Prop};
use vh::sim::{drive, drive_some, Poller, World};

type BSink = Pin<Box<dyn Sink<Tok, Error = Tok>>>;

fn h(salt: u32, v: u64) -> u64 {
    let mut x = v.wrapping_mul(0x9E3779B97F4A7C15) ^ ((salt as u64) << 17);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    (x ^ (x >> 32)) % 1000
}

/// How values and errors pass through an expression of sinks.
enum Node {
    Leaf(usize),
    Drain,
    /// Asynchronous mapping; the n-th call fails.
    With(u32, Option<usize>, Box<Node>),
    /// One to many; the n-th output is an error.
    Flat(u32, Option<usize>, Box<Node>),
    Fan(Box<Node>, Box<Node>),
    MapErr(u32, Box<Node>),
    /// A sink that a future makes, perhaps failing; whether it did.
    Open(u32, Arc<Mutex<bool>>, Box<Node>),
    Same(Box<Node>),
}

#[derive(Clone)]
enum LeafRec {
    Sink(Arc<Mutex<SinkSt<Tok>>>),
    /// Items whose future completed.
    Unfold(Arc<Mutex<Vec<u64>>>),
}

/// The source of the one error of a case.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Src {
    Leaf(usize),
    Map(u32),
    Open(u32),
}

struct Gen {
    case: Case,
    world: World,
    leaves: Vec<LeafRec>,
    next: u32,
    src: Option<Src>,
    /// Whether another error may still be put somewhere.
    may_fail: bool,
    ops: Vec<&'static str>,
}

const ERR: u64 = 5000;

impl Gen {
    fn new(case: &Case, errors: bool) -> Self {
        let may_fail = errors && case.chance(1, 2);
        Gen { case: case.clone(), world: World::new(case), leaves: vec![], next: 0, src: None, may_fail, ops: vec![] }
    }
    fn fail_here(&mut self, src: Src) -> bool {
        if self.may_fail && self.case.chance(1, 2) {
            self.may_fail = false;
            self.src = Some(src);
            return true;
        }
        false
    }
    fn leaf(&mut self) -> (BSink, Node) {
        let case = self.case.clone();
        let i = self.leaves.len();
        match case.weighted(&[8, 2, 1]) {
            0 => {
                let mut s: LSink<Tok, Tok> = LSink::new(&self.world, format!("k{i}"));
                if self.fail_here(Src::Leaf(i)) {
                    let op = case.range(1, 4) as u8;
                    s = s.failing(case.below(3), op, case.tok(ERR));
                }
                self.leaves.push(LeafRec::Sink(s.st.clone()));
                (Box::pin(s), Node::Leaf(i))
            }
            1 => {
                self.ops.push("unfold");
                let fail = if self.fail_here(Src::Leaf(i)) { Some(case.below(4)) } else { None };
                let rec = Arc::new(Mutex::new(vec![]));
                self.leaves.push(LeafRec::Unfold(rec.clone()));
                let (w, c) = (self.world.clone(), case.clone());
                let s = sink::unfold(case.tok(0), move |state: Tok, item: Tok| {
                    let n = rec.lock().unwrap().len() as u64;
                    c.eq(state.v, n, "state handed to the unfold function");
                    let (rec, c2) = (rec.clone(), c.clone());
                    let r = if fail == Some(n as usize) { Err(c.tok(ERR)) } else { Ok(()) };
                    LFut::gen(&w, "unfold", r).map(move |r| {
                        r.map(|()| {
                            rec.lock().unwrap().push(item.v);
                            let _ = &state;
                            c2.tok(n + 1)
                        })
                    })
                });
                (Box::pin(s), Node::Leaf(i))
            }
            _ => {
                self.ops.push("drain");
                (Box::pin(sink::drain::<Tok>().sink_map_err(|e| match e {})), Node::Drain)
            }
        }
    }
    fn tree(&mut self, depth: usize) -> (BSink, Node) {
        let case = self.case.clone();
        if depth == 0 || case.chance(1, 6) {
            return self.leaf();
        }
        self.next += 1;
        let id = self.next;
        let k = case.weighted(&[3, 3, 3, 3, 1, 1, 1, 1, 1]);
        if k == 3 {
            self.ops.push("fanout");
            let (a, na) = self.tree(depth - 1);
            let (b, nb) = self.tree(depth - 1);
            return (Box::pin(a.fanout(b)), Node::Fan(Box::new(na), Box::new(nb)));
        }
        // Decided before the inner sink, so that outer parts fail as well.
        let fail = if k <= 1 && self.fail_here(Src::Map(id)) { Some(case.below(4)) } else { None };
        let no_open = k == 8 && self.fail_here(Src::Open(id));
        let (s, n) = self.tree(depth - 1);
        let n = Box::new(n);
        let (w, c) = (self.world.clone(), case.clone());
        match k {
            0 => {
                self.ops.push("with");
                let mut calls = 0;
                let s = s.with(move |t: Tok| {
                    let r = if fail == Some(calls) { Err(c.tok(ERR)) } else { Ok(c.tok(h(id, t.v))) };
                    calls += 1;
                    let g = if c.bool() { VecDeque::new() } else { gates(&w) };
                    LFut::new(&w, format!("with{id}"), g, r)
                });
                (Box::pin(s), Node::With(id, fail, n))
            }
            1 => {
                self.ops.push("with_flat_map");
                let mut outs = 0;
                let s = s.with_flat_map(move |t: Tok| {
                    let items: Vec<_> = flat(id, t.v)
                        .into_iter()
                        .map(|v| {
                            let r = if fail == Some(outs) { Err(c.tok(ERR)) } else { Ok(c.tok(v)) };
                            outs += 1;
                            r
                        })
                        .collect();
                    LStream::gen(&w, format!("flat{id}"), items)
                });
                (Box::pin(s), Node::Flat(id, fail, n))
            }
            2 => {
                self.ops.push("buffer");
                let cap = case.below(4);
                (Box::pin(s.buffer(cap)), Node::Same(n))
            }
            4 => {
                self.ops.push("map_err");
                (Box::pin(s.sink_map_err(move |e: Tok| c.tok(h(id, e.v)))), Node::MapErr(id, n))
            }
            5 => {
                self.ops.push("err_into");
                (Box::pin(SinkExt::<Tok>::sink_err_into::<Tok>(s)), Node::Same(n))
            }
            6 => {
                self.ops.push("either");
                let s: BSink = if case.bool() {
                    Box::pin(SinkExt::<Tok>::left_sink::<LSink<Tok, Tok>>(s))
                } else {
                    Box::pin(SinkExt::<Tok>::right_sink::<LSink<Tok, Tok>>(s))
                };
                (s, Node::Same(n))
            }
            8 => {
                self.ops.push("flatten");
                let made = Arc::new(Mutex::new(false));
                let m2 = made.clone();
                let f = LFut::gen(&w, format!("open{id}"), if no_open { Err(c.tok(ERR)) } else { Ok(s) }).map(move |s| {
                    *m2.lock().unwrap() = s.is_ok();
                    s
                });
                (Box::pin(f.flatten_sink()), Node::Open(id, made, n))
            }
            _ => {
                self.ops.push("box");
                let b: Box<dyn Sink<Tok, Error = Tok> + Unpin> = Box::new(s);
                (Box::pin(Box::new(b)), Node::Same(n))
            }
        }
    }
}

fn flat(id: u32, v: u64) -> Vec<u64> {
    (0..h(id, v) % 4).map(|i| h(id + 100, v * 7 + i)).collect()
}

/// The items each sink is to receive, and whether the error point is reached.
fn model(n: &Node, items: &[u64], out: &mut Vec<Vec<u64>>) -> bool {
    match n {
        Node::Leaf(i) => {
            out[*i] = items.to_vec();
            false
        }
        Node::Drain => false,
        Node::With(id, fail, n) => {
            let mut v = vec![];
            for (i, x) in items.iter().enumerate() {
                if *fail != Some(i) {
                    v.push(h(*id, *x));
                }
            }
            model(n, &v, out) | fail.map_or(false, |f| items.len() > f)
        }
        Node::Flat(id, fail, n) => {
            let mut v: Vec<u64> = items.iter().flat_map(|x| flat(*id, *x)).collect();
            let mut hit = false;
            if let Some(f) = fail {
                if *f < v.len() {
                    v.remove(*f);
                    hit = true;
                }
            }
            model(n, &v, out) | hit
        }
        Node::Fan(a, b) => model(a, items, out) | model(b, items, out),
        Node::MapErr(_, n) | Node::Open(_, _, n) | Node::Same(n) => model(n, items, out),
    }
}

/// The error as it looks from outside.
fn err_at_top(n: &Node, src: Src) -> Option<u64> {
    match n {
        Node::Leaf(i) => (src == Src::Leaf(*i)).then_some(ERR),
        Node::Drain => None,
        Node::With(id, _, _) | Node::Flat(id, _, _) if src == Src::Map(*id) => Some(ERR),
        Node::Open(id, _, _) if src == Src::Open(*id) => Some(ERR),
        Node::With(_, _, n) | Node::Flat(_, _, n) | Node::Open(_, _, n) | Node::Same(n) => err_at_top(n, src),
        Node::Fan(a, b) => err_at_top(a, src).or_else(|| err_at_top(b, src)),
        Node::MapErr(id, n) => err_at_top(n, src).map(|e| h(*id, e)),
    }
}

/// An error under a one-to-many adaptor may cost the item it was about to pass
/// on, and a flattened sink is gone when closing it failed.
fn under_flat(n: &Node, src: Src, flat: bool) -> bool {
    match n {
        Node::Leaf(_) | Node::Drain => false,
        Node::With(id, _, _) | Node::Flat(id, _, _) if src == Src::Map(*id) => flat,
        Node::Flat(_, _, n) | Node::Open(_, _, n) => under_flat(n, src, true),
        Node::With(_, _, n) | Node::Same(n) | Node::MapErr(_, n) => under_flat(n, src, flat),
        Node::Fan(a, b) => under_flat(a, src, flat) || under_flat(b, src, flat),
    }
}

/// Sinks that were never made, as nothing was sent.
fn unmade(n: &Node, not: bool, out: &mut Vec<usize>) {
    match n {
        Node::Leaf(i) if not => out.push(*i),
        Node::Leaf(_) | Node::Drain => {}
        Node::Open(_, made, n) => unmade(n, not || !*made.lock().unwrap(), out),
        Node::With(_, _, n) | Node::Flat(_, _, n) | Node::Same(n) | Node::MapErr(_, n) => unmade(n, not, out),
        Node::Fan(a, b) => {
            unmade(a, not, out);
            unmade(b, not, out)
        }
    }
}

/// What is known about the items accepted so far: one of these lists.
struct Oracle<'a> {
    case: &'a Case,
    node: &'a Node,
    leaves: Vec<LeafRec>,
    src: Option<Src>,
    cands: Vec<Vec<u64>>,
    errors: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    Now,
    Flushed,
    Closed,
}

impl Oracle<'_> {
    fn leaf(&self, i: usize) -> (Vec<u64>, usize, bool) {
        match &self.leaves[i] {
            LeafRec::Sink(s) => {
                let s = s.lock().unwrap();
                (s.got.iter().map(|t| t.v).collect(), s.flushed, s.closed)
            }
            LeafRec::Unfold(r) => {
                let v = r.lock().unwrap().clone();
                let n = v.len();
                (v, n, true)
            }
        }
    }
    fn consistent(&self, items: &[u64], at: At) -> Result<(), String> {
        let mut want = vec![vec![]; self.leaves.len()];
        let hit = model(self.node, items, &mut want);
        let mut un = vec![];
        unmade(self.node, false, &mut un);
        for (i, w) in want.iter().enumerate() {
            let (got, flushed, closed) = self.leaf(i);
            if !w.starts_with(&got) {
                return Err(format!("sink {i} received {got:?}, but of {items:?} it is to receive {w:?}"));
            }
            if at != At::Now {
                if got.len() != w.len() {
                    return Err(format!("{at:?}, but sink {i} received only {got:?} of {w:?}"));
                }
                if flushed != got.len() {
                    return Err(format!("{at:?}, but sink {i} has {flushed} of {} items flushed", got.len()));
                }
            }
            if at == At::Closed && !closed && !un.contains(&i) {
                return Err(format!("closed, but sink {i} is not"));
            }
        }
        if at != At::Now && matches!(self.src, Some(Src::Map(_))) && (self.errors > 0) != hit {
            return Err(format!("{at:?}: error point reached: {hit}, errors reported: {}", self.errors));
        }
        if self.errors > 0 && matches!(self.src, Some(Src::Map(_))) && !hit {
            return Err("an error was reported that has not occurred".into());
        }
        Ok(())
    }
    fn check(&mut self, at: At) {
        let mut why = String::new();
        let mut keep = vec![];
        for c in std::mem::take(&mut self.cands) {
            match self.consistent(&c, at) {
                Ok(()) => keep.push(c),
                Err(e) => why = e,
            }
        }
        if keep.is_empty() {
            self.case.fail(why);
        }
        self.cands = keep;
    }
    fn accept(&mut self, v: u64) {
        for c in &mut self.cands {
            c.push(v);
        }
    }
    fn maybe(&mut self, v: u64) {
        let mut more = self.cands.clone();
        for c in &mut more {
            c.push(v);
        }
        self.cands.extend(more);
    }
    /// True: the sink is unusable now.
    fn error(&mut self, e: Tok) -> bool {
        self.errors += 1;
        let want = self.src.and_then(|s| err_at_top(self.node, s));
        self.case.check(self.errors == 1, || "the one error was reported twice".into());
        self.case.eq(Some(e.v), want, "error reported");
        match self.src {
            Some(Src::Leaf(_)) | Some(Src::Open(_)) | None => true,
            Some(s) => under_flat(self.node, s, false),
        }
    }
}

fn run_tree(case: &Case) {
    let mut g = Gen::new(case, true);
    let d = case.range(1, 3);
    let (mut s, node) = g.tree(d);
    let world = g.world.clone();
    let mut o = Oracle { case, node: &node, leaves: g.leaves.clone(), src: g.src, cands: vec![vec![]], errors: 0 };
    let mut p = Poller::new(case);
    let n = case.range(1, 8);
    let mut next = 1u64;
    let mut sent = 0;
    let mut ended = false;
    'ops: for _ in 0..n {
        let give_up = case.chance(1, 6);
        let budget = if give_up { case.range(1, 4) } else { usize::MAX };
        p.set_woken();
        match case.weighted(&[4, 4, 2, 3, 2]) {
            0 => {
                let v = next;
                next += 1;
                case.log(|| format!("feed {v}"));
                let mut f = s.feed(case.tok(v));
                match drive_some(&mut p, &world, "feed", budget, |cx| f.poll_unpin(cx)) {
                    Some(Ok(())) => o.accept(v),
                    Some(Err(e)) => {
                        // The error of an earlier item, or of the sink taking this one.
                        if o.error(e) {
                            o.maybe(v);
                            ended = true;
                            break 'ops;
                        }
                    }
                    None => case.label("gave_up"),
                }
                sent += 1;
            }
            1 => {
                let v = next;
                next += 1;
                case.log(|| format!("send {v}"));
                let mut f = s.send(case.tok(v));
                match drive_some(&mut p, &world, "send", budget, |cx| f.poll_unpin(cx)) {
                    Some(Ok(())) => {
                        o.accept(v);
                        o.check(At::Flushed);
                    }
                    Some(Err(e)) => {
                        o.maybe(v);
                        if o.error(e) {
                            ended = true;
                            break 'ops;
                        }
                    }
                    None => {
                        case.label("gave_up");
                        o.maybe(v);
                    }
                }
                sent += 1;
            }
            2 => {
                case.log(|| "flush".into());
                let mut f = SinkExt::<Tok>::flush(&mut s);
                match drive_some(&mut p, &world, "flush", budget, |cx| f.poll_unpin(cx)) {
                    Some(Ok(())) => o.check(At::Flushed),
                    Some(Err(e)) => {
                        if o.error(e) {
                            ended = true;
                            break 'ops;
                        }
                    }
                    None => case.label("gave_up"),
                }
            }
            3 => {
                case.log(|| "poll_ready".into());
                match drive_some(&mut p, &world, "poll_ready", budget, |cx| SinkExt::<Tok>::poll_ready_unpin(&mut s, cx)) {
                    Some(Ok(())) => {
                        let again = case.chance(1, 4);
                        if again {
                            // Readiness stays until it is used.
                            case.label("ready_twice");
                            match p.poll(|cx| SinkExt::<Tok>::poll_ready_unpin(&mut s, cx)) {
                                Poll::Ready(Ok(())) => {}
                                Poll::Ready(Err(e)) => {
                                    if o.error(e) {
                                        ended = true;
                                        break 'ops;
                                    }
                                    continue;
                                }
                                // A buffer may be re-examined; fine, not ready now.
                                Poll::Pending => continue,
                            }
                        }
                        let v = next;
                        next += 1;
                        case.log(|| format!("start_send {v}"));
                        sent += 1;
                        match s.start_send_unpin(case.tok(v)) {
                            Ok(()) => o.accept(v),
                            Err(e) => {
                                o.maybe(v);
                                if o.error(e) {
                                    ended = true;
                                    break 'ops;
                                }
                            }
                        }
                    }
                    Some(Err(e)) => {
                        if o.error(e) {
                            ended = true;
                            break 'ops;
                        }
                    }
                    None => case.label("gave_up"),
                }
            }
            _ => {
                let k = case.range(0, 4) as u64;
                let bad = case.chance(1, 6);
                let mut items: Vec<Result<Tok, Tok>> = (next..next + k).map(|v| Ok(case.tok(v))).collect();
                if bad {
                    items.push(Err(case.tok(7777)));
                }
                let first = next;
                next += k;
                case.log(|| format!("send_all {first}..{next}"));
                let st = LStream::gen(&world, "src", items);
                let ls = st.st.clone();
                let mut f = Box::pin(s.send_all(st));
                let r = drive_some(&mut p, &world, "send_all", budget, |cx| f.as_mut().poll(cx));
                drop(f);
                let taken = ls.items().min(k);
                sent += taken;
                match r {
                    Some(Ok(())) => {
                        case.check(!bad && taken == k && ls.done(), || "send_all ended before its stream".into());
                        for v in first..next {
                            o.accept(v);
                        }
                        o.check(At::Flushed);
                    }
                    Some(Err(e)) if e.v == 7777 => {
                        case.check(bad && ls.items() == k + 1, || "stream error out of nowhere".into());
                        for v in first..next {
                            o.accept(v);
                        }
                        case.label("stream_error");
                    }
                    r => {
                        // The last item taken may have been held back.
                        for v in first..first + taken {
                            if v + 1 == first + taken {
                                o.maybe(v)
                            } else {
                                o.accept(v)
                            }
                        }
                        if let Some(Err(e)) = r {
                            if o.error(e) {
                                ended = true;
                                break 'ops;
                            }
                        } else {
                            case.label("gave_up");
                        }
                    }
                }
            }
        }
        o.check(At::Now);
    }
    if ended {
        case.label("failed_for_good");
        o.check(At::Now);
    } else if case.chance(5, 6) {
        case.log(|| "close".into());
        for round in 0.. {
            p.set_woken();
            let give_up = case.chance(1, 6);
            let budget = if give_up { case.range(1, 4) } else { usize::MAX };
            let mut f = SinkExt::<Tok>::close(&mut s);
            match drive_some(&mut p, &world, "close", budget, |cx| f.poll_unpin(cx)) {
                Some(Ok(())) => {
                    o.check(At::Closed);
                    break;
                }
                Some(Err(e)) => {
                    if o.error(e) || round > 2 {
                        break;
                    }
                }
                None => {}
            }
            o.check(At::Now);
        }
    }
    if sent >= 3 && g.ops.len() >= 2 {
        case.nontrivial();
    }
    for op in &g.ops {
        case.label(op);
    }
    case.label_if(o.errors > 0, "error");
    drop(s);
    drop(g);
    drop(o);
    world.clear();
    case.no_leaks("sinks");
}

/// A stream driven into an expression of sinks; while the stream waits,
/// everything it gave so far has to get through.
fn run_forward(case: &Case) {
    let mut g = Gen::new(case, true);
    let d = case.range(0, 3);
    let (s, node) = g.tree(d);
    let world = g.world.clone();
    let mut o = Oracle { case, node: &node, leaves: g.leaves.clone(), src: g.src, cands: vec![vec![]], errors: 0 };
    let k = case.range(0, 7) as u64;
    let kind = case.below(3);
    let bad = kind != 0 && case.chance(1, 6);
    let mut items: Vec<Result<Tok, Tok>> = (0..k).map(|v| Ok(case.tok(v))).collect();
    if bad {
        items.push(Err(case.tok(7777)));
    }
    let mut p = Poller::new(case);
    let (ls, mut f, fused): (Arc<LeafSt>, Pin<Box<dyn Future<Output = Result<(), Tok>>>>, bool);
    let mut term: Box<dyn FnMut() -> bool> = Box::new(|| true);
    match kind {
        0 => {
            let st = LStream::gen(&world, "src", items.into_iter().map(|r| r.ok().unwrap()).collect::<Vec<_>>());
            ls = st.st.clone();
            let (mut a, t) = shared(st.forward(s));
            f = Box::pin(std::future::poll_fn(move |cx| a(cx)));
            term = t;
            fused = true;
        }
        1 => {
            let st = LStream::gen(&world, "src", items);
            ls = st.st.clone();
            let (mut a, t) = shared(st.try_forward(s));
            f = Box::pin(std::future::poll_fn(move |cx| a(cx)));
            term = t;
            fused = true;
        }
        _ => {
            let st = LStream::gen(&world, "src", items);
            ls = st.st.clone();
            let mut s = s;
            f = Box::pin(async move { s.send_all(st).await });
            fused = false;
        }
    }
    if fused {
        case.check(!term(), || "terminated before it was polled".into());
    }
    let stop = if case.chance(1, 8) { case.range(1, 6) } else { usize::MAX };
    let mut steps = 0;
    let mut r = None;
    loop {
        steps += 1;
        if steps > stop {
            break;
        }
        let w = world.waiting();
        let woken = p.woken();
        if woken && (w.is_empty() || !case.chance(1, 3)) {
            if let Poll::Ready(x) = p.poll(|cx| f.as_mut().poll(cx)) {
                r = Some(x);
                break;
            }
        } else if !w.is_empty() {
            let src = ls.waiting.lock().unwrap().as_ref().map(|e| e.id);
            let others: Vec<usize> = w.iter().copied().filter(|i| Some(*i) != src).collect();
            if !woken && others.is_empty() {
                // Only the stream holds things up.
                case.label("stream_waits");
                o.cands = vec![(0..ls.items()).collect()];
                o.check(At::Flushed);
                world.fire(w[0]);
            } else if !others.is_empty() && case.bool() {
                world.fire(others[case.below(others.len())]);
            } else {
                world.fire(w[case.below(w.len())]);
            }
        } else {
            case.fail("stalled: everything has fired and nothing woke the task (lost wakeup)")
        }
    }
    let taken = ls.items().min(k);
    let now: Vec<u64> = (0..taken).collect();
    match r {
        Some(Ok(())) => {
            case.check(!bad && taken == k && ls.done(), || "ended before its stream".into());
            o.cands = vec![now];
            o.check(if kind == 2 { At::Flushed } else { At::Closed });
            if kind == 2 {
                for l in &o.leaves {
                    if let LeafRec::Sink(s) = l {
                        case.eq(s.lock().unwrap().close_calls, 0, "send_all closed the sink");
                    }
                }
            }
            if fused {
                case.check(term(), || "not terminated after completion".into());
            }
        }
        Some(Err(e)) if e.v == 7777 => {
            case.check(bad && ls.items() == k + 1, || "stream error out of nowhere".into());
            o.cands = vec![now];
            o.check(At::Now);
            case.label("stream_error");
        }
        Some(Err(e)) => {
            o.error(e);
            // The last item taken may never have been accepted.
            let less = now[..now.len().saturating_sub(1)].to_vec();
            o.cands = vec![now, less];
            o.check(At::Now);
            case.label("error");
        }
        None => {
            o.cands = vec![now];
            o.check(At::Now);
            case.label("gave_up");
        }
    }
    if k >= 3 && !g.ops.is_empty() {
        case.nontrivial();
    }
    for op in &g.ops {
        case.label(op);
    }
    drop(f);
    drop(term);
    drop(g);
    drop(o);
    world.clear();
    case.no_leaks("forwarding");
}

/// Polling and asking for termination of the same future.
fn shared<F: FusedFuture + 'static>(
    f: F,
) -> (impl FnMut(&mut Context<'_>) -> Poll<F::Output>, Box<dyn FnMut() -> bool>) {
    let a = Arc::new(Mutex::new(Box::pin(f)));
    let b = a.clone();
    (move |cx: &mut Context<'_>| a.lock().unwrap().as_mut().poll(cx), Box::new(move || b.lock().unwrap().is_terminated()))
}

/// Buffering: takes `cap` items whatever the inner sink does, not one more.
fn run_buffer(case: &Case) {
    let world = World::new(case);
    let cap = case.range(1, 6);
    let ev = world.event("inner gets ready");
    let got = Arc::new(Mutex::new(vec![]));
    struct Stuck {
        ev: vh::sim::Ev,
        case: Case,
        ready: bool,
        got: Arc<Mutex<Vec<u64>>>,
    }
    impl Sink<Tok> for Stuck {
        type Error = Tok;
        fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
            self.case.step();
            let r = self.ev.poll(cx);
            self.ready = r.is_ready();
            r.map(Ok)
        }
        fn start_send(mut self: Pin<&mut Self>, t: Tok) -> Result<(), Tok> {
            if !self.ready {
                self.case.fail("start_send on a sink that is not ready");
            }
            self.ready = false;
            self.got.lock().unwrap().push(t.v);
            Ok(())
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
            self.ev.poll(cx).map(Ok)
        }
        fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
            self.ev.poll(cx).map(Ok)
        }
    }
    let mut s = Stuck { ev: ev.clone(), case: case.clone(), ready: false, got: got.clone() }.buffer(cap);
    let mut p = Poller::new(case);
    let n = case.range(0, 8);
    let mut acc: Vec<u64> = vec![];
    let open_at = case.below(n + 1);
    for i in 0..n {
        if i == open_at {
            world.fire(ev.id);
        }
        match p.poll(|cx| s.poll_ready_unpin(cx)) {
            Poll::Ready(Ok(())) => {
                case.check(acc.len() - got.lock().unwrap().len() < cap, || format!("more than {cap} items buffered"));
                s.start_send_unpin(case.tok(i as u64)).unwrap_or_else(|_| case.fail("refused"));
                acc.push(i as u64);
            }
            Poll::Ready(Err(_)) => case.fail("error out of nowhere"),
            Poll::Pending => {
                case.label("full");
                case.eq(acc.len() - got.lock().unwrap().len(), cap, "not ready although the buffer has room");
                case.check(!ev.fired(), || "not ready although the inner sink is".into());
                if case.bool() {
                    world.fire(ev.id);
                    case.check(p.woken(), || "the inner sink got ready, but the waiting task was not woken".into());
                }
            }
        }
    }
    let close = case.bool();
    p.set_woken();
    let r = drive(&mut p, &world, "flush", |cx| if close { s.poll_close_unpin(cx) } else { s.poll_flush_unpin(cx) });
    case.check(r.is_ok(), || "error out of nowhere".into());
    case.eq(&*got.lock().unwrap(), &acc, "items that came through the buffer");
    if n > cap {
        case.nontrivial();
    }
    drop(s);
    world.clear();
    case.no_leaks("buffer");
}

/// Both a stream and a sink.
struct Duplex {
    st: Pin<Box<LStream<Tok>>>,
    si: Pin<Box<LSink<Tok, Tok>>>,
}
impl Stream for Duplex {
    type Item = Tok;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Tok>> {
        self.st.as_mut().poll_next(cx)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.st.size_hint()
    }
}
impl FusedStream for Duplex {
    fn is_terminated(&self) -> bool {
        self.st.is_terminated()
    }
}
impl Sink<Tok> for Duplex {
    type Error = Tok;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
        self.si.as_mut().poll_ready(cx)
    }
    fn start_send(mut self: Pin<&mut Self>, t: Tok) -> Result<(), Tok> {
        self.si.as_mut().start_send(t)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
        self.si.as_mut().poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
        self.si.as_mut().poll_close(cx)
    }
}

fn use_duplex<D: Stream<Item = Tok> + FusedStream + Sink<Tok, Error = Tok> + 'static>(
    case: &Case,
    world: &World,
    d: D,
    map: impl Fn(u64) -> u64,
    n_in: u64,
    st: Arc<Mutex<SinkSt<Tok>>>,
    // Made by a future, and gone when the stream half ends.
    lazy: bool,
) {
    let mut touched = !lazy;
    let mut d = Box::pin(d);
    let mut p = Poller::new(case);
    let mut read = vec![];
    let mut sent = vec![];
    let n = case.range(!lazy as usize, 10);
    for i in 0..n as u64 {
        p.set_woken();
        let read_on = !d.is_terminated() && (!lazy || (read.len() as u64) < n_in);
        touched = true;
        if case.bool() && read_on {
            let left = n_in - read.len() as u64;
            let (lo, hi) = d.size_hint();
            case.check(lo as u64 <= left && hi.map_or(true, |x| x as u64 >= left), || {
                format!("size hint {:?} with {left} items left", (lo, hi))
            });
            match drive(&mut p, world, "next", |cx| d.as_mut().poll_next(cx)) {
                Some(t) => read.push(t.v),
                None => case.eq(read.len() as u64, n_in, "stream half ended early"),
            }
        } else {
            let t = case.tok(i);
            let r = drive(&mut p, world, "ready", |cx| d.as_mut().poll_ready(cx));
            case.check(r.is_ok(), || "error out of nowhere".into());
            case.check(d.as_mut().start_send(t).is_ok(), || "error out of nowhere".into());
            sent.push(map(i));
        }
    }
    p.set_woken();
    let close = case.bool();
    let r = drive(&mut p, world, "flush", |cx| if close { d.as_mut().poll_close(cx) } else { d.as_mut().poll_flush(cx) });
    case.check(r.is_ok(), || "error out of nowhere".into());
    {
        let s = st.lock().unwrap();
        let got: Vec<u64> = s.got.iter().map(|t| t.v).collect();
        case.eq(&got, &sent, "items sent");
        case.eq(s.closed, close && touched, "closed");
        case.eq(s.flushed, sent.len(), "flushed items");
    }
    case.eq(&read, &(0..read.len() as u64).collect::<Vec<_>>(), "items read");
    if read.len() >= 2 && sent.len() >= 2 {
        case.nontrivial();
    }
}

fn run_duplex(case: &Case) {
    let world = World::new(case);
    let n_in = case.range(0, 6) as u64;
    let st = LStream::gen(&world, "in", (0..n_in).map(|v| case.tok(v)).collect::<Vec<_>>());
    let si: LSink<Tok, Tok> = LSink::new(&world, "out");
    let rec = si.st.clone();
    let d = Duplex { st: Box::pin(st), si: Box::pin(si) };
    let (c, w) = (case.clone(), world.clone());
    let with = move |t: Tok| LFut::gen(&w, "with", Ok::<Tok, Tok>(c.tok(t.v * 2)));
    let (c, w) = (case.clone(), world.clone());
    let flat = move |t: Tok| LStream::gen(&w, "flat", vec![Ok::<Tok, Tok>(c.tok(t.v * 3))]);
    if case.bool() {
        return duplex_streams(case, &world, d, n_in, rec);
    }
    let cap = case.below(3);
    match case.below(7) {
        6 => use_duplex(case, &world, LFut::gen(&world, "open", d).flatten_stream(), |v| v, n_in, rec, true),
        0 => use_duplex(case, &world, d.with(with), |v| v * 2, n_in, rec, false),
        1 => use_duplex(case, &world, d.with_flat_map(flat), |v| v * 3, n_in, rec, false),
        2 => use_duplex(case, &world, d.buffer(cap), |v| v, n_in, rec, false),
        3 => use_duplex(case, &world, d.sink_map_err(|e: Tok| e), |v| v, n_in, rec, false),
        4 => use_duplex(case, &world, SinkExt::<Tok>::sink_err_into::<Tok>(d), |v| v, n_in, rec, false),
        _ => use_duplex(case, &world, d.with(with).buffer(cap).sink_map_err(|e: Tok| e), |v| v * 2, n_in, rec, false),
    }
    world.clear();
    case.no_leaks("duplex");
}

/// Stream adaptors around such an object pass the sink half through.
fn duplex_streams(case: &Case, world: &World, d: Duplex, n_in: u64, rec: Arc<Mutex<SinkSt<Tok>>>) {
    use futures::future::ready;
    let id = |v: u64| v;
    let (w, w2) = (world.clone(), world.clone());
    let slow = move |t: Tok| LFut::gen(&w, "then", t);
    let slow_ok = move |t: Tok| LFut::gen(&w2, "then", Ok::<Tok, Tok>(t));
    macro_rules! go {
        ($e:expr) => {
            use_duplex(case, world, $e, id, n_in, rec, false)
        };
    }
    let k = case.below(27);
    case.log(|| format!("stream adaptor {k}"));
    match k {
        0 => go!(d.map(|t| t)),
        1 => go!(d.then(slow)),
        2 => go!(d.filter(|_| ready(true))),
        3 => go!(d.filter_map(|t| ready(Some(t)))),
        4 => go!(d.inspect(|_| ())),
        5 => go!(StreamExt::fuse(d)),
        6 => go!(d.skip(0)),
        7 => go!(d.take(100)),
        8 => go!(d.skip_while(|_| ready(false))),
        9 => go!(d.take_while(|_| ready(true))),
        10 => go!(d.take_until(futures::future::pending::<()>())),
        11 => go!(d.scan(0u64, |n, t| ready(Some((n + 1, t))))),
        12 => go!(d.map(slow).buffered(1 + case.below(3))),
        13 => go!(d.map(slow).buffer_unordered(1)),
        14 => go!(d.chunks(1).map(|mut v| v.pop().unwrap())),
        15 => go!(d.ready_chunks(1).map(|mut v| v.pop().unwrap())),
        16 => go!(d.enumerate().map(|(_, t)| t)),
        17 => go!(d.map(|t| futures::stream::iter(Some(t))).flatten()),
        18 => go!(d.map(Ok::<Tok, Tok>).into_stream().map(|t| t.unwrap())),
        19 => go!(d.map(Ok::<Tok, Tok>).and_then(slow_ok).map(|t| t.unwrap())),
        20 => go!(d.map(Ok::<Tok, Tok>).or_else(|e| ready(Err::<Tok, Tok>(e))).map(|t| t.unwrap())),
        21 => go!(d.map(Ok::<Tok, Tok>).try_filter(|_| ready(true)).map(|t| t.unwrap())),
        22 => go!(d.map(Ok::<Tok, Tok>).try_filter_map(|t| ready(Ok(Some(t)))).map(|t| t.unwrap())),
        23 => go!(d.map(Ok::<Tok, Tok>).try_skip_while(|_| ready(Ok(false))).map(|t| t.unwrap())),
        24 => go!(d.map(Ok::<Tok, Tok>).try_take_while(|_| ready(Ok(true))).map(|t| t.unwrap())),
        25 => go!(d.map(Ok::<Tok, Tok>).try_chunks(1).map(|v| v.unwrap_or_else(|_| unreachable!()).pop().unwrap())),
        _ => go!(d.map(|t| futures::stream::iter(Some(t))).flat_map(|s| s)),
    }
    world.clear();
    case.no_leaks("duplex");
}

/// Collections and pointers as sinks.
fn run_plain(case: &Case) {
    let world = World::new(case);
    let n = case.range(0, 8) as u64;
    let mut p = Poller::new(case);
    let mut q: VecDeque<u64> = vec![100].into();
    let mut v: Vec<u64> = vec![200];
    let fan = case.bool();
    let script: VecDeque<SStep<u64>> = (0..n)
        .flat_map(|i| {
            let mut x = vec![];
            if case.chance(1, 3) {
                x.push(SStep::Gate(Gate::gen(&world)));
            }
            x.push(SStep::Item(i));
            x
        })
        .collect();
    let st = LStream::new(&world, "src", script);
    let want: Vec<u64> = (0..n).collect();
    if fan {
        let mut f = Box::pin(st.forward((&mut v).fanout(&mut q)));
        let r = drive(&mut p, &world, "forward", |cx| f.as_mut().poll(cx));
        case.check(r.is_ok(), || "error".into());
    } else {
        let mut bx: Box<Vec<u64>> = Box::new(std::mem::take(&mut v));
        let mut f = Box::pin(st.forward(Pin::new(&mut bx)));
        let r = drive(&mut p, &world, "forward", |cx| f.as_mut().poll(cx));
        case.check(r.is_ok(), || "error".into());
        drop(f);
        v = *bx;
    }
    case.eq(&v[1..], &want[..], "vector");
    if fan {
        case.eq(q.into_iter().skip(1).collect::<Vec<_>>(), want, "deque");
    }
    if n > 2 {
        case.nontrivial();
    }
    world.clear();
    case.no_leaks("plain");
}

fn main() {
    main_for(vec![Prop {
        id: "C25",
        rule: "tree: random expressions of sink adaptors (with, with_flat_map, buffer, fanout, error mapping, unfold, drain, either, flatten_sink, boxes; up to 3 levels) over scripted slow sinks, driven by histories of feed/send/flush/ready+start_send/send_all/close with given-up operations and at most one injected error; model = which items reach which sink. forward: the same sinks fed by forward, try_forward or send_all from a scripted stream, with flush checked whenever only the stream holds things up. buffer: capacity accounting over a blocked sink. duplex: adaptors around an object that is both stream and sink. plain: collections and pointers. Non-trivial: >=3 items through >=2 adaptors (tree), >=3 items and an adaptor (forward), more items than capacity (buffer), both directions used (duplex).",
        subs: vec![
            sub("tree", run_tree, 3_000_000, 30_000_000).miri(48, 1500),
            sub("forward", run_forward, 4_000_000, 40_000_000).miri(32, 800),
            sub("buffer", run_buffer, 1_000_000, 10_000_000),
            sub("duplex", run_duplex, 1_500_000, 15_000_000).miri(16, 300),
            sub("plain", run_plain, 250_000, 2_500_000).miri(8, 100),
        ],
    }]);
}
