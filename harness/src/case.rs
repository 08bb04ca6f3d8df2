//! One generated case: every choice it makes is drawn from a tape, so that a
//! case is a pure function of the tape and shrinking means editing the tape.
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::sync::{Arc, Mutex};

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub struct Inner {
    tape: Vec<u32>,
    pos: usize,
    rng: Option<u64>,
    pub logging: bool,
    pub log: Vec<String>,
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub fail: Option<String>,
    pub inconclusive: bool,
    /// Something ran that the scheduler does not control: no verdict at all.
    pub foreign: bool,
    steps: u64,
    step_limit: u64,
    live: HashMap<u64, &'static str>,
    next_tok: u64,
    created: u64,
}

#[derive(Clone)]
pub struct Case(Arc<Mutex<Inner>>);

/// Payload of the panic that `fail` raises (the message is in the case).
pub struct Failed;
/// Payload of the panic that ends a case without a verdict.
pub struct Inconclusive;
/// Payload of panics which a case raises on purpose inside user code.
#[derive(Debug)]
pub struct Injected(pub u64);

impl Case {
    pub fn new(tape: Vec<u32>, rng: Option<u64>, logging: bool) -> Self {
        Case(Arc::new(Mutex::new(Inner {
            tape,
            pos: 0,
            rng,
            logging,
            log: Vec::new(),
            labels: BTreeMap::new(),
            nontrivial: false,
            fail: None,
            inconclusive: false,
            foreign: false,
            steps: 0,
            step_limit: 200_000,
            live: HashMap::new(),
            next_tok: 0,
            created: 0,
        })))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut Inner) -> R) -> R {
        f(&mut self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn tape(&self) -> Vec<u32> {
        self.with(|i| i.tape[..i.pos.min(i.tape.len())].to_vec())
    }

    /// Uniform in `0..n`; 0 is the simplest choice.
    pub fn below(&self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.with(|i| {
            let v = if i.pos < i.tape.len() {
                i.tape[i.pos] % n as u32
            } else {
                match &mut i.rng {
                    Some(r) => (splitmix(r) % n as u64) as u32,
                    None => 0,
                }
            };
            if i.pos < i.tape.len() {
                i.tape[i.pos] = v;
            } else {
                i.tape.push(v);
            }
            i.pos += 1;
            v as usize
        })
    }
    /// Inclusive range.
    pub fn range(&self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True in `num` of `den` cases; false is simplest.
    pub fn chance(&self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    /// A length which is usually small, sometimes up to `max`, and now and
    /// then far beyond it.
    pub fn len(&self, max: usize) -> usize {
        match self.below(64) {
            0..=15 => self.range(0, max.min(2)),
            16..=47 => self.range(0, max.min(5)),
            48..=61 => self.range(0, max),
            _ => self.range(0, (max * 10).min(80)),
        }
    }
    /// As `range`, but one case in 40 goes up to `big`.
    pub fn big(&self, lo: usize, hi: usize, big: usize) -> usize {
        let hi = if self.chance(1, 40) { big } else { hi };
        self.range(lo, hi)
    }
    pub fn byte(&self) -> u8 {
        self.below(256) as u8
    }
    pub fn vec<T>(&self, max: usize, mut f: impl FnMut(&Case) -> T) -> Vec<T> {
        let n = self.len(max);
        (0..n).map(|_| f(self)).collect()
    }

    pub fn log(&self, f: impl FnOnce() -> String) {
        let on = self.with(|i| i.logging);
        if on {
            let s = f();
            self.with(|i| {
                if i.log.len() < 4000 {
                    i.log.push(s)
                }
            });
        }
    }
    pub fn label(&self, l: &'static str) {
        self.with(|i| *i.labels.entry(l).or_insert(0) += 1);
    }
    pub fn label_if(&self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial(&self) {
        self.with(|i| i.nontrivial = true);
    }
    #[track_caller]
    pub fn fail(&self, msg: impl Into<String>) -> ! {
        self.note_fail(msg);
        std::panic::panic_any(Failed)
    }
    /// Records a failure without unwinding (for code that must not unwind).
    #[track_caller]
    pub fn note_fail(&self, msg: impl Into<String>) {
        let loc = std::panic::Location::caller();
        let msg = format!("{} [{}:{}]", msg.into(), loc.file().rsplit('/').next().unwrap(), loc.line());
        self.with(|i| {
            if i.fail.is_none() {
                i.fail = Some(msg)
            }
        });
    }
    pub fn failed(&self) -> bool {
        self.with(|i| i.fail.is_some())
    }
    #[track_caller]
    pub fn check(&self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            self.fail(msg())
        }
    }
    #[track_caller]
    pub fn eq<A: fmt::Debug + PartialEq<B>, B: fmt::Debug>(&self, got: A, want: B, what: &str) {
        if !(got == want) {
            self.fail(format!("{what}: got {got:?}, want {want:?}"))
        }
    }
    pub fn inconclusive(&self) -> ! {
        self.with(|i| i.inconclusive = true);
        std::panic::panic_any(Inconclusive)
    }
    pub fn set_step_limit(&self, n: u64) {
        self.with(|i| i.step_limit = n);
    }
    /// Counts a step of the code under test; all inputs are finite, so running
    /// past the limit means that it makes no progress.
    #[track_caller]
    pub fn step(&self) {
        let over = self.with(|i| {
            i.steps += 1;
            i.steps > i.step_limit
        });
        if over {
            self.fail("no progress: step limit exceeded on a finite input")
        }
    }

    /// Logical time: strictly increasing with every step.
    pub fn now(&self) -> u64 {
        self.with(|i| i.steps)
    }

    /// A value whose destruction is accounted for.
    pub fn tok(&self, v: u64) -> Tok {
        self.tok_kind(v, "value")
    }
    pub fn tok_kind(&self, v: u64, kind: &'static str) -> Tok {
        let id = self.with(|i| {
            let id = i.next_tok;
            i.next_tok += 1;
            i.created += 1;
            if !cfg!(miri) {
                i.live.insert(id, kind);
            }
            id
        });
        Tok {
            v,
            id,
            kind,
            case: self.clone(),
            #[cfg(miri)]
            heap: Box::new(v),
        }
    }
    pub fn live(&self) -> usize {
        self.with(|i| i.live.len())
    }
    pub fn is_live(&self, id: u64) -> bool {
        self.with(|i| i.live.contains_key(&id))
    }
    #[track_caller]
    pub fn no_leaks(&self, what: &str) {
        let l: Vec<String> = self.with(|i| i.live.iter().map(|(k, v)| format!("{v}#{k}")).collect());
        if !l.is_empty() {
            self.fail(format!("{what}: {} value(s) never dropped: {:?}", l.len(), l))
        }
    }
}

/// Tracked value: dropped exactly once, or the case fails. (Under Miri a plain
/// heap value: Miri itself reports leaks and double frees, and the bookkeeping
/// would add synchronisation between the threads of a case.)
pub struct Tok {
    pub v: u64,
    pub id: u64,
    kind: &'static str,
    case: Case,
    #[cfg(miri)]
    heap: Box<u64>,
}

impl Tok {
    pub fn case(&self) -> &Case {
        &self.case
    }
}

#[cfg(not(miri))]
impl Clone for Tok {
    fn clone(&self) -> Self {
        self.case.tok_kind(self.v, self.kind)
    }
}

#[cfg(miri)]
impl Clone for Tok {
    fn clone(&self) -> Self {
        Tok { v: self.v, id: self.id, kind: self.kind, case: self.case.clone(), heap: Box::new(*self.heap) }
    }
}

#[cfg(not(miri))]
impl Drop for Tok {
    fn drop(&mut self) {
        let was = self.case.with(|i| i.live.remove(&self.id).is_some());
        if !was {
            self.case.note_fail(format!("{} #{} (v={}) dropped twice", self.kind, self.id, self.v));
        }
    }
}

#[cfg(miri)]
impl Drop for Tok {
    fn drop(&mut self) {
        assert_eq!(*self.heap, self.v);
        *self.heap = u64::MAX;
    }
}

impl fmt::Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "t{}", self.v)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl PartialEq<u64> for Tok {
    fn eq(&self, o: &u64) -> bool {
        self.v == *o
    }
}
