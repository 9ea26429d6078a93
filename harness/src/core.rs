//! Sinks, encoders behind one interface, panic capture, allocation counting.

use crate::gen::*;
use crate::inflate::Fmt;
use deflate::write::{DeflateEncoder, GzEncoder, ZlibEncoder};
use deflate::CompressionOptions;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::io::{self, ErrorKind, Write};
use std::rc::Rc;

// ---------------------------------------------------------------- allocation counting

pub struct Counting;
thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn note(d: i64) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + d;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
pub fn alloc_now() -> i64 {
    CUR.with(|c| c.get())
}
pub fn alloc_peak_reset() {
    PEAK.with(|p| p.set(alloc_now()))
}
pub fn alloc_peak() -> i64 {
    PEAK.with(|p| p.get())
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let l = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run f, turning a panic into an error.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| format!("{}: panicked: {}", what, last_panic()))
}

// ---------------------------------------------------------------- sink

pub struct SinkState {
    pub out: Vec<u8>,
    pub sched: Sched,
    /// Non-empty write calls that were subject to the schedule.
    pub sched_pos: usize,
    pub calls: usize,
    pub budget: usize,
    /// Everything the sink answered that was not an acceptance, in order.
    pub errs: Vec<ErrorKind>,
    pub zeros: usize,
    pub interrupts: usize,
    pub shorts: usize,
    pub flushes: usize,
    /// Panic at this call.
    pub panic_at: Option<usize>,
    /// What to do once the schedule is over.
    pub tail: Beh,
    /// Capacity: accepts no more than this many bytes in all.
    pub limit: usize,
    /// Calls while the thread was unwinding.
    pub calls_unwinding: usize,
    pub livelock: bool,
}

#[derive(Clone)]
pub struct Sink(pub Rc<RefCell<SinkState>>);

impl Sink {
    pub fn new(sched: Sched) -> Sink {
        let budget = 100_000 + sched.len() * 8;
        Sink(Rc::new(RefCell::new(SinkState {
            out: vec![],
            sched,
            sched_pos: 0,
            calls: 0,
            budget,
            errs: vec![],
            zeros: 0,
            interrupts: 0,
            shorts: 0,
            flushes: 0,
            panic_at: None,
            tail: Beh::All,
            limit: usize::MAX,
            calls_unwinding: 0,
            livelock: false,
        })))
    }
    pub fn all() -> Sink {
        Sink::new(Sched::all())
    }
    pub fn st(&self) -> std::cell::Ref<'_, SinkState> {
        self.0.borrow()
    }
    pub fn st_mut(&self) -> std::cell::RefMut<'_, SinkState> {
        self.0.borrow_mut()
    }
    pub fn same(&self, o: &Sink) -> bool {
        Rc::ptr_eq(&self.0, &o.0)
    }
    pub fn take_out(&self) -> Vec<u8> {
        std::mem::take(&mut self.st_mut().out)
    }
    pub fn out(&self) -> Vec<u8> {
        self.st().out.clone()
    }
    pub fn len(&self) -> usize {
        self.st().out.len()
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if std::thread::panicking() {
            s.calls_unwinding += 1;
        }
        s.calls += 1;
        if s.panic_at == Some(s.calls) {
            drop(s);
            panic!("sink panic (injected)");
        }
        if s.calls > s.budget {
            s.livelock = true;
            drop(s);
            panic!("livelock: the sink was called far more often than its schedule allows");
        }
        if b.is_empty() {
            return Ok(0);
        }
        let beh = if s.out.len() < s.sched.from as usize {
            Beh::All
        } else {
            let i = s.sched_pos;
            s.sched_pos += 1;
            if i < s.sched.len() { s.sched.at(i) } else { s.tail }
        };
        let n = match beh {
            Beh::All => b.len(),
            Beh::Take(n) => b.len().min(n.max(1) as usize),
            Beh::AllBut(n) => b.len().saturating_sub(n as usize).max(1),
            Beh::Interrupted => {
                s.interrupts += 1;
                return Err(ErrorKind::Interrupted.into());
            }
            Beh::Err(k) => {
                let k = ERR_KINDS[usize::from(k) % ERR_KINDS.len()];
                s.errs.push(k);
                return Err(k.into());
            }
            Beh::Zero => {
                s.zeros += 1;
                return Ok(0);
            }
        };
        let n = n.min(s.limit - s.out.len());
        if n == 0 {
            s.zeros += 1;
            return Ok(0);
        }
        if n < b.len() {
            s.shorts += 1;
        }
        s.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.borrow_mut().flushes += 1;
        Ok(())
    }
}

// ---------------------------------------------------------------- encoders

pub enum Enc<W: Write> {
    D(DeflateEncoder<W>),
    Z(ZlibEncoder<W>),
    G(GzEncoder<W>),
}

impl<W: Write> Enc<W> {
    pub fn new(fmt: Fmt, o: CompressionOptions, gz: &GzRec, w: W) -> Enc<W> {
        match fmt {
            Fmt::Raw => Enc::D(DeflateEncoder::new(w, o)),
            Fmt::Zlib => Enc::Z(ZlibEncoder::new(w, o)),
            Fmt::Gzip => {
                if *gz == GzRec::default() {
                    Enc::G(GzEncoder::new(w, o))
                } else {
                    Enc::G(GzEncoder::from_builder(gz.builder(), w, o))
                }
            }
        }
    }
    pub fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match self {
            Enc::D(e) => e.write(b),
            Enc::Z(e) => e.write(b),
            Enc::G(e) => e.write(b),
        }
    }
    pub fn flush(&mut self) -> io::Result<()> {
        match self {
            Enc::D(e) => e.flush(),
            Enc::Z(e) => e.flush(),
            Enc::G(e) => e.flush(),
        }
    }
    pub fn finish(self) -> io::Result<W> {
        match self {
            Enc::D(e) => e.finish(),
            Enc::Z(e) => e.finish(),
            Enc::G(e) => e.finish(),
        }
    }
    pub fn reset(&mut self, w: W, gz: &GzRec) -> io::Result<W> {
        match self {
            Enc::D(e) => e.reset(w),
            Enc::Z(e) => e.reset(w),
            Enc::G(e) => {
                if *gz == GzRec::default() {
                    e.reset(w)
                } else {
                    e.reset_with_builder(w, gz.builder())
                }
            }
        }
    }
    pub fn checksum(&self) -> Option<u32> {
        match self {
            Enc::D(_) => None,
            Enc::Z(e) => Some(e.checksum()),
            Enc::G(e) => Some(e.checksum()),
        }
    }
}

/// Write the whole buffer, retrying Interrupted. The sink is expected not to fail otherwise.
/// `each` is called with the number of bytes consumed by each successful call.
pub fn feed<W: Write>(
    e: &mut Enc<W>,
    b: &[u8],
    mut each: impl FnMut(&Enc<W>, usize) -> Result<(), String>,
) -> Result<(), String> {
    if b.is_empty() {
        return match e.write(b) {
            Ok(0) => each(e, 0),
            Ok(n) => Err(format!("write of an empty buffer returned Ok({})", n)),
            Err(x) if x.kind() == ErrorKind::Interrupted => Ok(()),
            Err(x) => Err(format!("write of an empty buffer failed: {}", x)),
        };
    }
    let mut p = 0;
    let mut tries = 0usize;
    while p < b.len() {
        match e.write(&b[p..]) {
            Ok(0) => return Err("write returned Ok(0) for a non-empty buffer".into()),
            Ok(n) if n > b.len() - p => {
                return Err(format!("write returned Ok({}) for {} bytes", n, b.len() - p))
            }
            Ok(n) => {
                p += n;
                tries = 0;
                each(e, n)?;
            }
            Err(x) if x.kind() == ErrorKind::Interrupted => {
                tries += 1;
                if tries > 150_000 {
                    return Err("write keeps returning Interrupted without progress".into());
                }
            }
            Err(x) => return Err(format!("write failed: {} ({:?})", x, x.kind())),
        }
    }
    Ok(())
}

pub fn nop<W: Write>(_: &Enc<W>, _: usize) -> Result<(), String> {
    Ok(())
}

#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum End {
    Finish,
    Drop,
}

/// Run a whole history on a sink that only shortens or interrupts writes; returns what it received.
pub fn run_history(
    fmt: Fmt,
    o: CompressionOptions,
    gz: &GzRec,
    data: &[u8],
    steps: &[Step],
    end: End,
    sink: &Sink,
) -> Result<Vec<u8>, String> {
    let mut e = Enc::new(fmt, o, gz, sink.clone());
    do_steps(&mut e, data, steps)?;
    finish(e, end, sink)?;
    Ok(sink.out())
}

pub fn do_steps<W: Write>(e: &mut Enc<W>, data: &[u8], steps: &[Step]) -> Result<(), String> {
    for s in steps {
        match *s {
            Step::Write(a, b) => feed(e, &data[a..b], nop)?,
            Step::Flush => e.flush().map_err(|x| format!("flush failed: {}", x))?,
        }
    }
    Ok(())
}

/// Make every call until it succeeds, on a sink that fails for some time. With `skip_flush` a failed
/// flush is not repeated. `each` is called after every call with the bytes it consumed.
pub fn stubborn(
    e: &mut Enc<Sink>,
    data: &[u8],
    steps: &[Step],
    skip_flush: bool,
    mut each: impl FnMut(&Enc<Sink>, usize) -> Result<(), String>,
) -> Result<(), String> {
    let mut tries = 0u32;
    let mut again = |x: std::io::Error| {
        tries += 1;
        if tries > 300_000 {
            return Err(format!("calls keep failing: {}", x));
        }
        Ok(())
    };
    for s in steps {
        match *s {
            Step::Write(a, b) => {
                let mut p = a;
                loop {
                    match e.write(&data[p..b]) {
                        Ok(n) if n > b - p || n == 0 && b > p => return Err(format!("write returned Ok({}) for {} bytes", n, b - p)),
                        Ok(n) => {
                            p += n;
                            each(e, n)?;
                        }
                        Err(x) => {
                            each(e, 0)?;
                            again(x)?;
                        }
                    }
                    if p == b {
                        break;
                    }
                }
            }
            Step::Flush => loop {
                let r = e.flush();
                each(e, 0)?;
                match r {
                    Ok(()) => break,
                    Err(x) => again(x)?,
                }
                if skip_flush {
                    break;
                }
            },
        }
    }
    Ok(())
}

pub fn stubborn_reset(e: &mut Enc<Sink>, next: &Sink, gz: &GzRec) -> Result<Sink, String> {
    let mut tries = 0;
    loop {
        match e.reset(next.clone(), gz) {
            Ok(w) => return Ok(w),
            Err(x) => {
                tries += 1;
                if tries > 300_000 {
                    return Err(format!("reset keeps failing: {}", x));
                }
            }
        }
    }
}

pub fn finish(e: Enc<Sink>, end: End, sink: &Sink) -> Result<(), String> {
    match end {
        End::Finish => {
            let w = e.finish().map_err(|x| format!("finish failed: {}", x))?;
            if !w.same(sink) {
                return Err("finish returned a different writer".into());
            }
        }
        End::Drop => drop(e),
    }
    Ok(())
}

pub fn one_shot(fmt: Fmt, o: CompressionOptions, gz: &GzRec, data: &[u8]) -> Vec<u8> {
    match fmt {
        Fmt::Raw => deflate::deflate_bytes_conf(data, o),
        Fmt::Zlib => deflate::deflate_bytes_zlib_conf(data, o),
        Fmt::Gzip => deflate::deflate_bytes_gzip_conf(data, o, gz.builder()),
    }
}

/// Position and context of the first difference.
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a
        .iter()
        .zip(b.iter())
        .position(|(x, y)| x != y)
        .unwrap_or_else(|| a.len().min(b.len()));
    let w = |v: &[u8]| format!("{:02x?}", &v[i.min(v.len())..(i + 8).min(v.len())]);
    format!("lengths {} / {}, first difference at {}: {} / {}", a.len(), b.len(), i, w(a), w(b))
}
