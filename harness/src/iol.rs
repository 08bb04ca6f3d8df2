//! Scripted readers and writers: short reads and writes, waits, transient
//! errors, seeks; they report callers that break the contracts.
use crate::case::Case;
use crate::leaf::{pass, Gate};
use crate::sim::World;
use futures_io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
use std::collections::VecDeque;
use std::io::{self, IoSlice, IoSliceMut, SeekFrom};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

/// Waiting, shared by all scripted I/O objects.
pub struct Waits {
    pub world: World,
    /// Out of 8.
    slow: usize,
    gates: VecDeque<Gate>,
    op: u8,
}

impl Waits {
    pub fn new(world: &World) -> Self {
        Waits { world: world.clone(), slow: *world.case.pick(&[0usize, 1, 3, 6]), gates: VecDeque::new(), op: 0 }
    }
    pub fn wait(&mut self, op: u8, cx: &mut Context<'_>) -> Poll<()> {
        self.world.case.step();
        if self.op != op {
            self.clear();
            if self.slow > 0 && self.world.case.chance(self.slow, 8) {
                self.gates.push_back(Gate::gen(&self.world));
            }
            self.op = op;
        }
        let r = pass(&mut self.gates, cx);
        if r.is_ready() {
            self.op = 0;
        }
        r
    }
    fn clear(&mut self) {
        for g in &self.gates {
            g.forget();
        }
        self.gates.clear();
    }
}
impl Drop for Waits {
    fn drop(&mut self) {
        self.clear()
    }
}

/// Errors raised on purpose carry a number.
pub fn injected(n: usize) -> io::Error {
    io::Error::new(io::ErrorKind::Other, format!("injected {n}"))
}
pub fn is_injected(e: &io::Error) -> bool {
    e.kind() == io::ErrorKind::Other && e.to_string().starts_with("injected ")
}

#[derive(Default, Debug)]
pub struct RSt {
    pub pos: usize,
    pub reads: usize,
    pub errors: usize,
    pub seeks: usize,
    pub eofs: usize,
}

/// A reader over bytes.
pub struct LRead {
    case: Case,
    waits: Waits,
    pub data: Vec<u8>,
    pub st: Arc<Mutex<RSt>>,
    /// Out of 16.
    err: usize,
    max: usize,
    vectored: bool,
    /// Length of the window given out by `poll_fill_buf`.
    win: usize,
    pub name: &'static str,
    /// A reader with positions up to 2^64, showing the same bytes again at 2^63.
    pub wide: bool,
}

pub const HALF: u64 = 1 << 63;

impl LRead {
    pub fn new(world: &World, name: &'static str, data: Vec<u8>, errors: bool) -> Self {
        let case = world.case.clone();
        LRead {
            err: if errors { *case.pick(&[1usize, 2, 4]) } else { 0 },
            max: *case.pick(&[1usize, 2, 3, 7, 1000]),
            vectored: case.bool(),
            wide: false,
            waits: Waits::new(world),
            data,
            st: Default::default(),
            win: 0,
            name,
            case,
        }
    }
    fn some(&self, room: usize) -> usize {
        let left = self.data.len().saturating_sub(self.st.lock().unwrap().pos & !(HALF as usize));
        let n = room.min(left).min(self.max);
        if n <= 1 {
            n
        } else {
            1 + self.case.below(n)
        }
    }
    fn fails(&mut self) -> Option<io::Error> {
        if self.err > 0 && self.case.chance(self.err, 16) {
            let mut st = self.st.lock().unwrap();
            st.errors += 1;
            let n = st.errors;
            drop(st);
            let name = self.name;
            self.case.log(|| format!("  {name}: error {n}"));
            return Some(injected(n));
        }
        None
    }
}

impl AsyncRead for LRead {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let this = &mut *self;
        if this.waits.wait(1, cx).is_pending() {
            return Poll::Pending;
        }
        if let Some(e) = this.fails() {
            return Poll::Ready(Err(e));
        }
        let n = this.some(buf.len());
        let mut st = this.st.lock().unwrap();
        if n > 0 {
            let pos = st.pos & !(HALF as usize);
            buf[..n].copy_from_slice(&this.data[pos..pos + n]);
        } else if !buf.is_empty() {
            st.eofs += 1;
        }
        st.pos += n;
        this.win = this.win.saturating_sub(n);
        st.reads += 1;
        let name = this.name;
        this.case.log(|| format!("  {name}: read({}) = {n}", buf.len()));
        Poll::Ready(Ok(n))
    }
    fn poll_read_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        if !self.vectored {
            return match bufs.iter_mut().find(|b| !b.is_empty()) {
                Some(b) => self.poll_read(cx, b),
                None => self.poll_read(cx, &mut []),
            };
        }
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        let mut tmp = vec![0; total];
        let n = match self.as_mut().poll_read(cx, &mut tmp) {
            Poll::Ready(Ok(n)) => n,
            r => return r,
        };
        let mut at = 0;
        for b in bufs {
            let k = b.len().min(n - at);
            b[..k].copy_from_slice(&tmp[at..at + k]);
            at += k;
        }
        Poll::Ready(Ok(n))
    }
}

impl AsyncBufRead for LRead {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = self.get_mut();
        let pos = this.st.lock().unwrap().pos;
        if this.win == 0 {
            if this.waits.wait(1, cx).is_pending() {
                return Poll::Pending;
            }
            if let Some(e) = this.fails() {
                return Poll::Ready(Err(e));
            }
            this.win = this.some(usize::MAX);
            if this.win == 0 {
                this.st.lock().unwrap().eofs += 1;
            }
        }
        let (name, win) = (this.name, this.win);
        this.case.log(|| format!("  {name}: fill_buf = {win}"));
        let pos = pos.min(this.data.len());
        Poll::Ready(Ok(&this.data[pos..pos + this.win]))
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        if amt > self.win {
            self.case.note_fail(format!("consume({amt}) of a window of {}", self.win));
            return;
        }
        self.win -= amt;
        self.st.lock().unwrap().pos += amt;
    }
}

impl AsyncSeek for LRead {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<io::Result<u64>> {
        let this = &mut *self;
        if this.waits.wait(2, cx).is_pending() {
            return Poll::Pending;
        }
        if let Some(e) = this.fails() {
            return Poll::Ready(Err(e));
        }
        let mut st = this.st.lock().unwrap();
        let new = target(st.pos as u64, this.data.len() as u64, to);
        let name = this.name;
        this.case.log(|| format!("  {name}: seek {to:?} -> {new:?}"));
        st.seeks += 1;
        match new {
            Some(n) if n <= 1 << 40 || this.wide => {
                st.pos = n as usize;
                this.win = 0;
                Poll::Ready(Ok(n))
            }
            _ => Poll::Ready(Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid seek"))),
        }
    }
}

/// Where a seek leads; `None`: before the start or overflow.
pub fn target(pos: u64, len: u64, to: SeekFrom) -> Option<u64> {
    match to {
        SeekFrom::Start(n) => Some(n),
        SeekFrom::End(n) => len.checked_add_signed(n),
        SeekFrom::Current(n) => pos.checked_add_signed(n),
    }
}

#[derive(Default, Debug)]
pub struct WSt {
    pub got: Vec<u8>,
    pub flushed: usize,
    pub closed: bool,
    pub errors: usize,
    pub zeros: usize,
    pub shorts: usize,
    pub writes: usize,
    pub flushes: usize,
    /// Where the next byte goes (for seeks).
    pub pos: usize,
}

pub struct LWrite {
    case: Case,
    waits: Waits,
    pub st: Arc<Mutex<WSt>>,
    err: usize,
    /// Whether a write may return 0, out of 16.
    zero: usize,
    max: usize,
    vectored: bool,
}

impl LWrite {
    pub fn new(world: &World, errors: bool, zeros: bool) -> Self {
        let case = world.case.clone();
        LWrite {
            err: if errors { *case.pick(&[1usize, 2, 4]) } else { 0 },
            zero: if zeros { *case.pick(&[1usize, 2, 4]) } else { 0 },
            max: *case.pick(&[1usize, 2, 3, 7, 1000, 1000]),
            vectored: case.bool(),
            waits: Waits::new(world),
            st: Default::default(),
            case,
        }
    }
    /// Takes whatever it is offered.
    pub fn whole(mut self) -> Self {
        self.max = usize::MAX;
        self.vectored = true;
        self
    }
    fn check(&self, what: &str) {
        if self.st.lock().unwrap().closed {
            self.case.fail(format!("writer: {what} after a successful close"));
        }
    }
    fn fails(&mut self) -> Option<io::Error> {
        if self.err > 0 && self.case.chance(self.err, 16) {
            let mut st = self.st.lock().unwrap();
            st.errors += 1;
            let n = st.errors;
            drop(st);
            self.case.log(|| format!("  writer: error {n}"));
            return Some(injected(n));
        }
        None
    }
    fn put(&mut self, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        self.check("write");
        if self.waits.wait(1, cx).is_pending() {
            return Poll::Pending;
        }
        if let Some(e) = self.fails() {
            return Poll::Ready(Err(e));
        }
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        let n = total.min(self.max);
        let n = if self.max == usize::MAX || n <= 1 { n } else { 1 + self.case.below(n) };
        if self.zero > 0 && n > 0 && self.case.chance(self.zero, 16) {
            self.st.lock().unwrap().zeros += 1;
            self.case.log(|| "  writer: write = 0".into());
            return Poll::Ready(Ok(0));
        }
        let mut st = self.st.lock().unwrap();
        let mut left = n;
        for b in bufs {
            for x in &b[..b.len().min(left)] {
                let p = st.pos;
                if p < st.got.len() {
                    st.got[p] = *x;
                } else {
                    while st.got.len() < p {
                        st.got.push(0);
                    }
                    st.got.push(*x);
                }
                st.pos += 1;
            }
            left -= b.len().min(left);
        }
        st.writes += 1;
        st.shorts += (n < total) as usize;
        drop(st);
        self.case.log(|| format!("  writer: write({total}) = {n}"));
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for LWrite {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.put(cx, &[IoSlice::new(buf)])
    }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        if self.vectored {
            self.put(cx, bufs)
        } else {
            let b = bufs.iter().find(|b| !b.is_empty()).map_or(&[][..], |b| &**b);
            self.put(cx, &[IoSlice::new(b)])
        }
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.check("flush");
        if self.waits.wait(2, cx).is_pending() {
            return Poll::Pending;
        }
        if let Some(e) = self.fails() {
            return Poll::Ready(Err(e));
        }
        let mut st = self.st.lock().unwrap();
        st.flushed = st.got.len();
        st.flushes += 1;
        drop(st);
        self.case.log(|| "  writer: flushed".into());
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.check("close");
        if self.waits.wait(3, cx).is_pending() {
            return Poll::Pending;
        }
        if let Some(e) = self.fails() {
            return Poll::Ready(Err(e));
        }
        let mut st = self.st.lock().unwrap();
        st.flushed = st.got.len();
        st.closed = true;
        drop(st);
        self.case.log(|| "  writer: closed".into());
        Poll::Ready(Ok(()))
    }
}

impl AsyncSeek for LWrite {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<io::Result<u64>> {
        self.check("seek");
        if self.waits.wait(4, cx).is_pending() {
            return Poll::Pending;
        }
        if let Some(e) = self.fails() {
            return Poll::Ready(Err(e));
        }
        let mut st = self.st.lock().unwrap();
        match target(st.pos as u64, st.got.len() as u64, to) {
            Some(n) if n <= 200 => {
                st.pos = n as usize;
                Poll::Ready(Ok(n))
            }
            _ => Poll::Ready(Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid seek"))),
        }
    }
}

/// Text over a small alphabet, sometimes with multi-byte or invalid characters.
pub fn text(case: &Case, max: usize, invalid: bool) -> Vec<u8> {
    let n = if case.chance(1, 16) { case.below(max * 8) } else { case.len(max) };
    let mut v = vec![];
    while v.len() < n {
        match case.weighted(&[5, 4, 4, 2, 2, invalid as usize]) {
            0 => v.push(b'a'),
            1 => v.push(b'b' + case.below(20) as u8),
            2 => v.push(b'\n'),
            3 => v.push(b'\r'),
            4 => v.extend_from_slice("é".as_bytes()),
            _ => v.push(0xff),
        }
    }
    v
}

/// Distinct bytes, so that any loss, duplication or reordering shows.
pub fn bytes(case: &Case, max: usize) -> Vec<u8> {
    let n = if case.chance(1, 16) { case.below(max * 8) } else { case.len(max) };
    (0..n).map(|i| (i % 251) as u8 + 1).collect()
}
