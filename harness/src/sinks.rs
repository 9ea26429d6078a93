//! C07, C08, C12, C14: behaviour towards the sink.

use crate::arm;
use crate::core::*;
use crate::gen::*;
use crate::inflate::*;
use crate::lossless::*;
use crate::runner::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::io::ErrorKind;

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C07 {
    pub h: Hist,
    pub sched: Sched,
}

fn c07(c: &C07) -> Res {
    let h = &c.h;
    let data = expand(&h.data, CAP);
    let steps = plan(&h.ops, data.len());
    let want = guard("stream", || h.run(h.fmt, &data, &steps, h.end, &Sink::all()))??;
    let sink = Sink::new(c.sched.clone());
    guard("stream to a piecemeal sink", || h.run(h.fmt, &data, &steps, h.end, &sink))??;
    let s = sink.st();
    if s.out != want {
        return Err(format!("other bytes than with a sink accepting everything: {}", diff(&s.out, &want)));
    }
    let mut o = Obs::one(s.shorts + s.interrupts > 0);
    hist_classes(&mut o, &steps);
    o.class(format!("{:?}", h.fmt));
    o.class(format!("{:?}", h.end));
    o.class_if(s.shorts > 0, "short writes");
    o.class_if(s.interrupts > 0, "interrupted writes");
    o.class_if(s.shorts > 100, "more than 100 short writes");
    o.class_if(want.len() > 32768 && s.shorts + s.interrupts > 0, "more than one output buffer");
    o.note = format!("{} -> {} bytes, {} calls, {} short, {} interrupted", data.len(), want.len(), s.calls, s.shorts, s.interrupts);
    Ok(o)
}

fn c07_strategy() -> BoxedStrategy<C07> {
    (warm(prop_oneof![4 => hist(220_000, 3), 2 => noisy_hist(), 1 => edge_hist()].boxed()), sched(benign_beh()))
        .prop_map(|(h, sched)| C07 { h, sched })
        .boxed()
}

/// Histories with much output.
pub fn noisy_hist() -> BoxedStrategy<Hist> {
    (fmt(), opts(), gzrec(), proptest::collection::vec(noisy(), 1..5), ops(3), end())
        .prop_map(|(fmt, opts, gz, data, ops, end)| Hist { fmt, opts, gz, data, ops, end, pre: vec![] })
        .boxed()
}

fn noisy() -> BoxedStrategy<Seg> {
    let s = any::<u32>();
    prop_oneof![
        (s, size(150_000), 100u16..=256).prop_map(|(seed, len, alpha)| Seg::Rand { seed, len, alpha, base: 0, stride: 1 }),
        (s, size(150_000)).prop_map(|(seed, len)| Seg::Uniq { seed, len }),
        (s, size(150_000), 100u16..3000).prop_map(|(seed, len, words)| Seg::Text { seed, len, words }),
        seg(150_000),
    ]
    .boxed()
}

/// Every one of the first sink calls hit by each kind of behaviour, on fixed histories.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Enumerated {
    pub h: Hist,
    pub beh: Vec<Beh>,
    pub kinds: String,
}

fn fixed_hists() -> Vec<Hist> {
    let mut v = vec![];
    for fmt in [Fmt::Raw, Fmt::Zlib, Fmt::Gzip] {
        for (i, (data, ops)) in [
            (vec![Seg::Raw(b"hello hello hello".to_vec())], vec![Op::Flush, Op::Write(5), Op::Flush, Op::Write(7), Op::Flush]),
            (vec![Seg::Rand { seed: 4, len: 120_000, alpha: 256, base: 0, stride: 1 }], vec![Op::Write(70_000), Op::Flush, Op::Write(10)]),
            (vec![Seg::Text { seed: 4, len: 200_000, words: 2500 }], vec![Op::Write(150_000), Op::Flush, Op::Empty, Op::Flush]),
            (vec![Seg::Rand { seed: 5, len: 300_000, alpha: 180, base: 0, stride: 1 }], vec![]),
            (vec![], vec![]),
        ]
        .into_iter()
        .enumerate()
        {
            let gz = GzRec { name: Some(b"name".to_vec()), ..GzRec::default() };
            v.push(Hist { fmt, opts: [Opts::Preset(1), Opts::Preset(0), Opts::Preset(3)][i % 3], gz, data, ops, end: if i % 2 == 0 { End::Finish } else { End::Drop }, pre: vec![] });
        }
    }
    v
}

/// One history, with each of its sink calls in turn hit by each behaviour of the list.
fn c07_enum(c: &Enumerated) -> Res {
    let h = &c.h;
    let data = expand(&h.data, CAP);
    let steps = plan(&h.ops, data.len());
    let perfect = Sink::all();
    guard("stream", || h.run(h.fmt, &data, &steps, h.end, &perfect))??;
    let calls = perfect.st().calls;
    let mut o = Obs::default();
    for k in 0..calls {
        for b in &c.beh {
            let mut first = vec![Beh::All; k];
            first.push(*b);
            let sink = Sink::new(Sched { first, cycle: vec![], cycles: 0, from: 0 });
            guard("stream to a piecemeal sink", || h.run(h.fmt, &data, &steps, h.end, &sink))
                .and_then(|r| r)
                .map_err(|e| format!("{:?} at sink call {}: {}", b, k, e))?;
            if sink.st().out != perfect.st().out {
                return Err(format!("{:?} at sink call {}: {}", b, k, diff(&sink.st().out, &perfect.st().out)));
            }
            o.evals += 1;
            o.nontrivial += (sink.st().shorts + sink.st().interrupts > 0) as u64;
        }
    }
    o.class("every sink call of a history");
    o.note = format!("{} sink calls", calls);
    Ok(o)
}

fn c07_enum_list(_: bool) -> Vec<Enumerated> {
    fixed_hists()
        .into_iter()
        .map(|h| Enumerated {
            h,
            beh: vec![Beh::Take(1), Beh::Take(2), Beh::Take(5), Beh::Take(1000), Beh::AllBut(1), Beh::AllBut(2), Beh::AllBut(5), Beh::AllBut(8), Beh::Interrupted],
            kinds: "benign".into(),
        })
        .collect()
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum End8 {
    Finish,
    Drop,
    Reset,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C08 {
    pub h: Hist,
    pub end: End8,
    pub sched: Sched,
    /// What the sink does when the schedule is over.
    pub tail: Beh,
    /// Capacity of the sink.
    pub limit: Option<u32>,
    /// How often a failed call is retried before giving up and dropping the encoder.
    pub retries: u16,
    /// A failed flush is not retried but the next call is made.
    pub skip_flush: bool,
}

struct Events {
    errs: usize,
    zeros: usize,
    intr: usize,
}

fn ev(s: &Sink) -> Events {
    let s = s.st();
    Events { errs: s.errs.len(), zeros: s.zeros, intr: s.interrupts }
}

/// Whether an error result is one the sink gave during the call.
fn explained(s: &Sink, before: &Events, e: &std::io::Error) -> Result<(), String> {
    let st = s.st();
    let k = e.kind();
    let seen = &st.errs[before.errs..];
    if seen.contains(&k)
        || k == ErrorKind::WriteZero && st.zeros > before.zeros
        || k == ErrorKind::Interrupted && st.interrupts > before.intr
    {
        return Ok(());
    }
    Err(format!("error {:?} ({}) although the sink reported {:?}", k, e, seen))
}

fn c08(c: &C08) -> Res {
    let h = &c.h;
    let data = expand(&h.data, CAP);
    let steps = plan(&h.ops, data.len());
    let sink = Sink::new(c.sched.clone());
    {
        let mut s = sink.st_mut();
        s.tail = c.tail;
        s.limit = c.limit.map_or(usize::MAX, |l| l as usize);
        if c.tail != Beh::All || c.limit.is_some() {
            s.budget += 200_000;
        }
    }
    let mut o = Obs::one(false);
    let second: Vec<u8> = [b"after the reset after the reset", &data[..data.len().min(40_000)]].concat();
    let mut consumed = 0usize;
    let mut checks = 0usize;
    // Prefix checks are incremental.
    let mut inf = Inflater::new();
    let mut flush_left = false;

    let r = guard("stream to a failing sink", || -> Result<(), String> {
        let mut e = h.enc(h.fmt, &sink)?;
        let mut gave_up = false;
        let mut reported = 0;
        'steps: for s in &steps {
            match *s {
                Step::Write(a, b) => {
                    let mut p = consumed.max(a);
                    let mut fails = 0u32;
                    let mut stalls = 0u32;
                    loop {
                        if p >= b && (a < b || fails + stalls > 0) {
                            break;
                        }
                        let before = ev(&sink);
                        match e.write(&data[p..b]) {
                            Ok(n) if n > b - p => return Err(format!("write returned Ok({}) for {} bytes", n, b - p)),
                            Ok(0) if b > p => return Err("write returned Ok(0) for a non-empty buffer".into()),
                            Ok(n) => {
                                p += n;
                                consumed = p;
                                stalls = 0;
                                if p >= b {
                                    break;
                                }
                            }
                            Err(x) if x.kind() == ErrorKind::Interrupted => {
                                // Either the sink was interrupted, or a full buffer has been (partly) output.
                                stalls += 1;
                                let st = sink.st();
                                if stalls as usize > 200_000 + st.sched.len() {
                                    return Err("write keeps returning Interrupted".into());
                                }
                                // With a sink that accepts nothing (any more), that is no progress.
                                if st.errs.len() > before.errs && st.errs.last() != Some(&ErrorKind::Interrupted) {
                                    return Err(format!("write returned Interrupted although the sink failed with {:?}", st.errs.last()));
                                }
                                if st.limit == st.out.len() && st.zeros == before.zeros + 1 {
                                    return Err("write returned Interrupted although the sink is full".into());
                                }
                            }
                            Err(x) => {
                                explained(&sink, &before, &x).map_err(|m| format!("write: {}", m))?;
                                reported += 1;
                                fails += 1;
                                if fails > u32::from(c.retries) {
                                    gave_up = true;
                                    break 'steps;
                                }
                            }
                        }
                        if e.checksum() != sum_of(h.fmt, None, &data[..consumed]) && checks < 60 {
                            return Err(format!("checksum() is {:x?} after {} consumed bytes", e.checksum(), consumed));
                        }
                        if sink.st().errs.len() + sink.st().zeros > before.errs + before.zeros && checks < 40 {
                            checks += 1;
                            prefix(h.fmt, &sink.st().out, &mut inf, &data[..consumed])?;
                        }
                    }
                }
                Step::Flush => {
                    let mut fails = 0;
                    loop {
                        let before = ev(&sink);
                        match e.flush() {
                            Ok(()) => {
                                if sink.st().errs.len() > before.errs {
                                    return Err(format!("flush returned Ok although the sink failed with {:?}", &sink.st().errs[before.errs..]));
                                }
                                if checks < 60 {
                                    checks += 1;
                                    flushed(h.fmt, &sink.st().out, &mut inf, &data[..consumed])
                                        .map_err(|m| format!("after a successful flush: {}", m))?;
                                }
                                break;
                            }
                            Err(x) => {
                                explained(&sink, &before, &x).map_err(|m| format!("flush: {}", m))?;
                                reported += 1;
                                if checks < 40 {
                                    checks += 1;
                                    prefix(h.fmt, &sink.st().out, &mut inf, &data[..consumed])?;
                                }
                                fails += 1;
                                if c.skip_flush {
                                    flush_left = true;
                                    break;
                                }
                                if fails > u32::from(c.retries) {
                                    gave_up = true;
                                    break 'steps;
                                }
                            }
                        }
                    }
                }
            }
        }
        if reported > 0 {
            o.class("errors reported by write or flush");
        }
        let before = ev(&sink);
        let mut complete = false;
        let what;
        if gave_up || c.end == End8::Drop {
            what = "drop";
            drop(e);
            let now = ev(&sink);
            if now.errs + now.zeros == before.errs + before.zeros {
                complete = true;
                if gave_up {
                    o.class("dropped after an error, then completed");
                }
            }
        } else if c.end == End8::Finish {
            what = "finish";
            let r = e.finish();
            let now = ev(&sink);
            match r {
                Ok(w) => {
                    if !w.same(&sink) {
                        return Err("finish returned a different writer".into());
                    }
                    if now.errs > before.errs {
                        return Err(format!("finish returned Ok although the sink failed with {:?}", &sink.st().errs[before.errs..]));
                    }
                    complete = true;
                }
                Err(x) => {
                    explained(&sink, &before, &x).map_err(|m| format!("finish: {}", m))?;
                    o.class("finish failed");
                    // finish consumes the encoder; dropping it is another attempt.
                    if now.errs + now.zeros == before.errs + before.zeros + 1 {
                        o.class("finish failed, drop completed");
                        complete = true;
                    }
                }
            }
        } else {
            what = "reset";
            let next = Sink::all();
            let mut fails = 0;
            loop {
                let before = ev(&sink);
                match e.reset(next.clone(), &GzRec::default()) {
                    Ok(w) => {
                        if !w.same(&sink) {
                            return Err("reset returned a different writer".into());
                        }
                        if sink.st().errs.len() > before.errs {
                            return Err(format!("reset returned Ok although the sink failed with {:?}", &sink.st().errs[before.errs..]));
                        }
                        if fails > 0 {
                            o.class("reset retried successfully");
                        }
                        complete = true;
                        let old = sink.st().out.len();
                        feed(&mut e, &second, nop).map_err(|m| format!("after the reset: {}", m))?;
                        finish(e, End::Finish, &next).map_err(|m| format!("after the reset: {}", m))?;
                        let fresh = one_shot(h.fmt, h.opts.get(), &GzRec::default(), &second);
                        if next.st().out != fresh {
                            return Err(format!("stream after the reset: {}", diff(&next.st().out, &fresh)));
                        }
                        if sink.st().out.len() != old {
                            return Err("the old writer was written to after the reset".into());
                        }
                        break;
                    }
                    Err(x) => {
                        explained(&sink, &before, &x).map_err(|m| format!("reset: {}", m))?;
                        if next.len() > 0 {
                            return Err("a failed reset wrote to the new writer".into());
                        }
                        prefix(h.fmt, &sink.st().out, &mut inf, &data[..consumed])?;
                        fails += 1;
                        if fails > u32::from(c.retries) {
                            let before = ev(&sink);
                            drop(e);
                            let now = ev(&sink);
                            complete = now.errs + now.zeros == before.errs + before.zeros;
                            break;
                        }
                    }
                }
            }
        }
        if complete {
            lossless(h.fmt, &sink.st().out, &data[..consumed])
                .map_err(|m| format!("stream after successful {}: {}", what, m))?;
            o.class(format!("complete after {}", what));
            if !gave_up && !flush_left && sink.st().errs.len() + sink.st().zeros > 0 {
                // Every call was repeated until it succeeded.
                let perfect = h.run(h.fmt, &data, &steps, End::Finish, &Sink::all())?;
                if sink.st().out != perfect {
                    return Err(format!("other bytes than without the failures: {}", diff(&sink.st().out, &perfect)));
                }
                o.class("all calls repeated, compared with a run without failures");
            }
        } else {
            prefix(h.fmt, &sink.st().out, &mut inf, &data[..consumed]).map_err(|m| format!("after failed {}: {}", what, m))?;
            o.class(format!("incomplete after {}", what));
        }
        Ok(())
    });
    r??;
    let s = sink.st();
    o.nontrivial = (s.errs.len() + s.zeros > 0) as u64;
    o.class(format!("{:?}", h.fmt));
    o.class_if(s.errs.len() > 0, "sink errors");
    o.class_if(s.errs.len() > 3, "more than 3 sink errors");
    o.class_if(s.zeros > 0, "sink accepting nothing");
    o.class_if(s.shorts > 0, "short writes");
    o.class_if(c.limit.is_some(), "bounded sink");
    o.class_if(matches!(c.tail, Beh::Err(_)), "permanent error");
    o.class_if(consumed == data.len() && !s.errs.is_empty(), "everything consumed despite errors");
    o.note = format!(
        "{} of {} bytes consumed, {} delivered, sink: {} errors, {} zeros, {} short, {} interrupted",
        consumed, data.len(), s.out.len(), s.errs.len(), s.zeros, s.shorts, s.interrupts
    );
    Ok(o)
}

/// The sink holds a prefix of a valid stream of (a prefix of) the data.
fn prefix(fmt: Fmt, out: &[u8], inf: &mut Inflater, want: &[u8]) -> Result<(), String> {
    let head = match fmt {
        Fmt::Raw => Some(0),
        Fmt::Zlib => zlib_header(out)?,
        Fmt::Gzip => gzip_header(out)?.map(|h| h.len),
    };
    let head = match head {
        Some(h) => h,
        None => return Ok(()),
    };
    match inf.run(&out[head..]) {
        Stop::Done => {
            let (i, _) = decode_prefix(fmt, out)?;
            if i.out != want {
                return Err(format!("complete stream of other data: {}", diff(&i.out, want)));
            }
        }
        Stop::Truncated => {
            if inf.out.len() > want.len() || inf.out[..] != want[..inf.out.len()] {
                return Err(format!("sink holds a stream of other data: {}", diff(&inf.out, want)));
            }
        }
        Stop::Invalid(e) => return Err(format!("sink holds an invalid stream: {}", e)),
    }
    Ok(())
}

fn c08_strategy() -> BoxedStrategy<C08> {
    (
        warm(prop_oneof![3 => hist(120_000, 3), 3 => noisy_hist(), 1 => edge_hist()].boxed()),
        prop_oneof![2 => Just(End8::Finish), 1 => Just(End8::Drop), 2 => Just(End8::Reset)],
        sched(faulty_beh()),
        prop_oneof![8 => Just(Beh::All), 1 => (0u8..6).prop_map(Beh::Err), 1 => Just(Beh::Zero)],
        prop_oneof![6 => Just(None), 1 => (0u32..60).prop_map(Some), 2 => (0u32..200_000).prop_map(Some)],
        prop_oneof![1 => Just(0u16), 2 => 1u16..4, 4 => Just(5000u16)],
        any::<bool>(),
    )
        .prop_map(|(h, end, sched, tail, limit, retries, skip_flush)| {
            let retries = if tail != Beh::All || limit.is_some() { retries.min(3) } else { retries };
            C08 { h, end, sched, tail, limit, retries, skip_flush }
        })
        .boxed()
}

/// Fixed histories, one fault at each sink call in turn (transient or from there on), with each
/// ending.
fn c08_enum(c: &Enumerated) -> Res {
    let h = &c.h;
    let data = expand(&h.data, CAP);
    let steps = plan(&h.ops, data.len());
    let perfect = Sink::all();
    guard("stream", || h.run(h.fmt, &data, &steps, h.end, &perfect))??;
    let calls = perfect.st().calls;
    let mut o = Obs::default();
    for k in 0..calls {
        for (i, b) in c.beh.iter().enumerate() {
            for end in [End8::Finish, End8::Drop, End8::Reset] {
                for mode in 0..4 {
                    let mut first = vec![Beh::All; k];
                    let mut tail = Beh::All;
                    match mode {
                        // once
                        0 => first.push(*b),
                        // part of the output, then the fault
                        1 => {
                            first.push(Beh::Take([1, 2, 5, 300][(k + i) % 4]));
                            first.push(*b);
                        }
                        // all but the last bytes, then the fault
                        2 => {
                            first.push(Beh::AllBut([1, 2, 3, 5][(k + i) % 4]));
                            first.push(*b);
                        }
                        // from now on
                        _ => tail = *b,
                    }
                    let case = C08 {
                        h: h.clone(),
                        end,
                        sched: Sched { first, cycle: vec![], cycles: 0, from: 0 },
                        tail,
                        limit: None,
                        retries: 3,
                        skip_flush: (k + i) % 2 == 0,
                    };
                    let r = c08(&case).map_err(|e| {
                        format!("{} [sched {:?} tail {:?} end {:?} skip_flush {}]", e, case.sched.first, tail, end, case.skip_flush)
                    })?;
                    o.evals += 1;
                    o.nontrivial += r.nontrivial;
                }
            }
        }
    }
    o.class("every sink call of a history");
    o.note = format!("{} sink calls", calls);
    Ok(o)
}

fn c08_enum_list(_: bool) -> Vec<Enumerated> {
    let mut v = vec![];
    for h in fixed_hists() {
        for b in [Beh::Err(0), Beh::Err(1), Beh::Err(2), Beh::Zero] {
            v.push(Enumerated { h: h.clone(), beh: vec![b], kinds: "faults".into() });
        }
    }
    v
}

fn sum_of(fmt: Fmt, start: Option<u32>, d: &[u8]) -> Option<u32> {
    match fmt {
        Fmt::Raw => None,
        Fmt::Zlib => Some(adler32_add(start.unwrap_or(1), d)),
        Fmt::Gzip => Some(crc32_add(start.unwrap_or(0), d)),
    }
}

// ------------------------------------------------------------------ C14

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Panic {
    /// The sink panics at its k-th call.
    Sink(u16),
    /// The caller panics after the k-th step.
    Caller(u16),
    /// A normal drop while another thread is unwinding.
    OtherThread,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C14 {
    pub h: Hist,
    pub sched: Sched,
    pub panic: Panic,
    /// Reset the encoder first, so that it has a second writer.
    pub reset: bool,
    /// End the history by finish/reset (else drop) where the panic did not strike before.
    pub end: End8,
}

struct Signal(std::sync::mpsc::Sender<()>, std::sync::mpsc::Receiver<()>);
impl Drop for Signal {
    fn drop(&mut self) {
        let _ = self.0.send(());
        let _ = self.1.recv();
    }
}

fn c14(c: &C14) -> Res {
    let h = &c.h;
    let data = expand(&h.data, 150_000);
    let steps = plan(&h.ops, data.len());
    let sink = Sink::new(c.sched.clone());
    let mut o = Obs::one(false);
    o.class(format!("{:?}", h.fmt));
    if c.panic == Panic::OtherThread {
        // Another thread is held in the middle of unwinding.
        let (s1, r1) = std::sync::mpsc::channel();
        let (s2, r2) = std::sync::mpsc::channel();
        let t = std::thread::spawn(move || {
            let _s = Signal(s1, r2);
            panic!("unwinding thread (injected)");
        });
        let _ = r1.recv();
        let r = guard("stream", || h.run(h.fmt, &data, &steps, h.end, &sink));
        let _ = s2.send(());
        let _ = t.join();
        r??;
        lossless(h.fmt, &sink.st().out, &data)?;
        o.class("other thread unwinding");
        o.nontrivial = 1;
        return Ok(o);
    }
    if let Panic::Sink(k) = c.panic {
        sink.st_mut().panic_at = Some(usize::from(k) + 1);
    }
    let mut at_panic = None;
    let first = Sink::all();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
        let mut e;
        if c.reset {
            e = Enc::new(h.fmt, h.opts.get(), &GzRec::default(), first.clone());
            feed(&mut e, b"first stream", nop)?;
            e.reset(sink.clone(), &h.gz).map_err(|x| x.to_string())?;
        } else {
            e = h.enc(h.fmt, &sink)?;
        }
        if c.panic == Panic::Caller(0) {
            at_panic = Some(sink.st().calls);
            panic!("caller panic (injected)");
        }
        for i in 0..steps.len() {
            do_steps(&mut e, &data, &steps[i..=i])?;
            if c.panic == Panic::Caller(i as u16 + 1) {
                at_panic = Some(sink.st().calls);
                panic!("caller panic (injected)");
            }
        }
        match c.end {
            End8::Drop => drop(e),
            End8::Finish => finish(e, End::Finish, &sink)?,
            End8::Reset => {
                e.reset(Sink::all(), &GzRec::default()).map_err(|x| format!("reset: {}", x))?;
            }
        }
        Ok(())
    }));
    let s = sink.st();
    if first.st().calls_unwinding > 0 {
        return Err("the writer before the reset was called while unwinding".into());
    }
    match r {
        Ok(r) => {
            r?;
            // The panic point was never reached.
            drop(s);
            lossless(h.fmt, &sink.st().out, &data)?;
            o.class("completed");
        }
        Err(_) => {
            let m = last_panic();
            if !m.contains("(injected)") {
                return Err(format!("panicked: {}", m));
            }
            if s.calls_unwinding > 0 {
                return Err(format!("{} sink calls while unwinding", s.calls_unwinding));
            }
            let at = s.panic_at.or(at_panic).unwrap_or(0);
            if s.calls != at {
                return Err(format!("{} sink calls after the panic", s.calls - at));
            }
            o.nontrivial = 1;
            o.class_if(matches!(c.panic, Panic::Sink(_)), "sink panicked");
            o.class_if(matches!(c.panic, Panic::Caller(_)), "caller panicked");
            o.class_if(!s.out.is_empty(), "output before the panic");
            o.class_if(c.reset, "reset before");
        }
    }
    Ok(o)
}

fn c14_strategy() -> BoxedStrategy<C14> {
    (
        warm(prop_oneof![3 => hist(60_000, 4), 2 => noisy_hist()].boxed()),
        some_sched(),
        prop_oneof![6 => (0u16..6).prop_map(Panic::Sink), 1 => (0u16..200).prop_map(Panic::Sink), 6 => (0u16..8).prop_map(Panic::Caller), 2 => Just(Panic::OtherThread)],
        proptest::bool::weighted(0.25),
        prop_oneof![2 => Just(End8::Finish), 2 => Just(End8::Drop), 1 => Just(End8::Reset)],
    )
        .prop_map(|(h, sched, panic, reset, end)| C14 { h, sched, panic, reset, end })
        .boxed()
}

/// Fixed histories: a panic at every sink call and between any two calls.
fn c14_enum(c: &Enumerated) -> Res {
    let h = &c.h;
    let data = expand(&h.data, 150_000);
    let steps = plan(&h.ops, data.len());
    let perfect = Sink::all();
    guard("stream", || h.run(h.fmt, &data, &steps, End::Finish, &perfect))??;
    let calls = perfect.st().calls as u16;
    let mut o = Obs::default();
    for reset in [false, true] {
        for end in [End8::Finish, End8::Drop, End8::Reset] {
            for p in (0..=calls + 2).map(Panic::Sink).chain((0..=steps.len() as u16).map(Panic::Caller)) {
                let case = C14 { h: h.clone(), sched: Sched::all(), panic: p, reset, end };
                let r = c14(&case).map_err(|e| format!("{:?} end {:?} reset {}: {}", p, end, reset, e))?;
                o.evals += 1;
                o.nontrivial += r.nontrivial;
            }
        }
    }
    o.class("every call of a history");
    Ok(o)
}

fn c14_enum_list(_: bool) -> Vec<Enumerated> {
    fixed_hists().into_iter().map(|h| Enumerated { h, beh: vec![], kinds: "panics".into() }).collect()
}

// ------------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C12 {
    pub fmt: Fmt,
    pub opts: Opts,
    /// Repeated until `total` bytes have been written.
    pub data: Vec<Seg>,
    pub total: u64,
    pub piece: u32,
    /// Flush after every n-th write (0: never).
    pub flush_every: u16,
    /// Reset after every n-th write (0: never).
    pub reset_every: u16,
    pub end: End,
    pub short: u32,
}

/// Decodes the output as it arrives far enough to know how much was delivered, keeps nothing.
#[derive(Clone)]
struct Meter(std::rc::Rc<std::cell::RefCell<(u64, u32, usize)>>);
impl std::io::Write for Meter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut m = self.0.borrow_mut();
        let n = if m.1 == 0 { b.len() } else { b.len().min(m.1 as usize) };
        m.0 += n as u64;
        m.2 = m.2.max(b.len());
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub const HEAP_LIMIT: i64 = 2 << 20;
pub const HELD_LIMIT: u64 = 256 << 10;

fn c12(c: &C12) -> Res {
    let data = expand(&c.data, 300_000);
    if data.is_empty() {
        return Ok(Obs::one(false));
    }
    let m = Meter(std::rc::Rc::new(std::cell::RefCell::new((0, c.short, 0))));
    let mut piece: Vec<u8> = Vec::with_capacity(c.piece as usize);
    let gz = GzRec::default();
    let mut peak = 0;
    let mut calls = 0u64;
    // Delivered bytes after each consumed amount, to compare with what the end result shows was
    // already determined (see below).
    let mut delivered: Vec<(u64, u64)> = vec![];
    guard("stream", || -> Result<(), String> {
        let base = alloc_now();
        let mut e = Enc::new(c.fmt, c.opts.get(), &gz, m.clone());
        let mut pos = 0usize;
        let mut left = c.total;
        let mut n = 0u64;
        while left > 0 {
            let l = left.min(u64::from(c.piece.max(1))) as usize;
            piece.clear();
            let mut before = 0;
            if l > piece.capacity() {
                before = alloc_now();
            }
            while piece.len() < l {
                let k = (l - piece.len()).min(data.len() - pos);
                piece.extend_from_slice(&data[pos..pos + k]);
                pos = (pos + k) % data.len();
            }
            let _ = before;
            alloc_peak_reset();
            let mut p = 0;
            let mut stalls = 0;
            while p < l {
                match e.write(&piece[p..]) {
                    Ok(0) => return Err("Ok(0)".into()),
                    Ok(k) => {
                        p += k;
                        stalls = 0;
                    }
                    Err(x) if x.kind() == ErrorKind::Interrupted => {
                        stalls += 1;
                        if stalls > 200_000 {
                            return Err("write keeps returning Interrupted".into());
                        }
                    }
                    Err(x) => return Err(format!("write failed: {}", x)),
                }
                calls += 1;
                // Memory the encoder owns (the pieces are allocated by us, before `base`).
                let used = alloc_peak() - base;
                peak = peak.max(used);
                if used > HEAP_LIMIT {
                    return Err(format!("{} bytes of heap in use after {} of {} bytes", used, c.total - left + p as u64, c.total));
                }
                if delivered.len() < 3000 && c.reset_every == 0 {
                    delivered.push((c.total - left + p as u64, m.0.borrow().0));
                }
            }
            left -= l as u64;
            n += 1;
            if c.flush_every > 0 && n % u64::from(c.flush_every) == 0 {
                e.flush().map_err(|x| format!("flush failed: {}", x))?;
            }
            if c.reset_every > 0 && n % u64::from(c.reset_every) == 0 {
                e.reset(m.clone(), &gz).map_err(|x| format!("reset failed: {}", x))?;
            }
            let used = alloc_peak() - base;
            peak = peak.max(used);
            if used > HEAP_LIMIT {
                return Err(format!("{} bytes of heap in use after {} of {} bytes", used, c.total - left, c.total));
            }
        }
        alloc_peak_reset();
        match c.end {
            End::Finish => drop(e.finish().map_err(|x| format!("finish failed: {}", x))?),
            End::Drop => drop(e),
        }
        let used = alloc_peak() - base;
        peak = peak.max(used);
        if used > HEAP_LIMIT {
            return Err(format!("{} bytes of heap in use at the end", used));
        }
        Ok(())
    })??;
    let biggest = m.0.borrow().2 as u64;
    if biggest > HELD_LIMIT {
        return Err(format!("{} bytes handed to the sink in one piece", biggest));
    }
    let mut o = Obs::one(c.total > 100_000);
    o.class(format!("{:?}", c.fmt));
    o.class(c.opts.class());
    o.class_if(c.total > 1 << 20, "more than 1 MiB");
    o.class_if(c.total > 16 << 20, "more than 16 MiB");
    o.class_if(c.piece > 500_000, "writes larger than 500 kB");
    o.class_if(c.flush_every > 0, "flushes");
    o.class_if(c.reset_every > 0, "resets");
    o.class_if(c.short > 0, "short writes");
    o.note = format!("{} bytes in {} calls -> {} bytes, peak heap {}, largest sink write {}", c.total, calls, m.0.borrow().0, peak, biggest);
    Ok(o)
}

fn c12_strategy() -> BoxedStrategy<C12> {
    (
        (fmt(), opts_quick(), data(150_000)),
        prop_oneof![4 => 1u64..3_000_000, 2 => 1u64..400_000, 1 => 3_000_000u64..8_000_000],
        prop_oneof![2 => 1u32..200, 3 => 1000u32..100_000, 2 => 100_000u32..3_000_000],
        prop_oneof![2 => Just(0u16), 1 => 1u16..50],
        prop_oneof![3 => Just(0u16), 1 => 1u16..50],
        end(),
        prop_oneof![3 => Just(0u32), 1 => 1u32..40_000],
    )
        .prop_map(|((fmt, opts, data), total, piece, flush_every, reset_every, end, short)| {
            // Keep the number of calls in bounds.
            let total = total.min(u64::from(piece) * 20_000).min(if short > 0 { u64::from(short) * 5000 } else { u64::MAX }).max(1);
            C12 { fmt, opts, data, total, piece, flush_every, reset_every, end, short }
        })
        .boxed()
}

fn opts_quick() -> BoxedStrategy<Opts> {
    prop_oneof![
        4 => (0u8..5).prop_map(|n| Opts::Preset(if n == 2 { 1 } else { n })),
        1 => (0u16..40, lazy_below(), any::<bool>()).prop_map(|(checks, lazy_below, lazy)| Opts::Custom { checks, lazy_below, lazy, special: 0 }),
    ]
    .boxed()
}

fn c12_list(thorough: bool) -> Vec<C12> {
    let mut v = vec![];
    let mb = if thorough { 200 } else { 40 };
    for (i, data) in [
        vec![Seg::Rand { seed: 1, len: 300_000, alpha: 256, base: 0, stride: 1 }],
        vec![Seg::Text { seed: 2, len: 300_000, words: 3000 }],
        vec![Seg::Run { b: 7, len: 300_000 }],
        vec![Seg::Uniq { seed: 2, len: 300_000 }],
        vec![Seg::Sparse { seed: 5, len: 300_000, every: 20, mlen: (3, 9), dist: (1, 32768) }],
    ]
    .into_iter()
    .enumerate()
    {
        for (j, (piece, flush_every, reset_every)) in
            [(1u32 << 23, 0u16, 0u16), (50_000, 0, 0), (3000, 1, 0), (1_000_000, 3, 0), (200_000, 0, 2)].into_iter().enumerate()
        {
            v.push(C12 {
                fmt: [Fmt::Raw, Fmt::Zlib, Fmt::Gzip][(i + j) % 3],
                opts: [Opts::Preset(0), Opts::Preset(4), Opts::Preset(3), Opts::Preset(1)][(i + j) % 4],
                data: data.clone(),
                total: mb << 20,
                piece,
                flush_every,
                reset_every,
                end: End::Finish,
                short: 0,
            });
        }
    }
    v
}

// Output held back: after each write, decode what was delivered; the amount of compressed output
// for consumed data that is not delivered yet is bounded.
fn c12_held(c: &Hist) -> Res {
    let data = expand(&c.data, CAP);
    let steps = plan(&c.ops, data.len());
    let sink = Sink::all();
    let mut marks: Vec<(usize, usize)> = vec![];
    guard("stream", || -> Result<(), String> {
        let mut e = c.enc(c.fmt, &sink)?;
        let mut pos = 0;
        for s in &steps {
            match *s {
                Step::Write(a, b) => feed(&mut e, &data[a..b], |_, n| {
                    pos += n;
                    marks.push((pos, sink.len()));
                    Ok(())
                })?,
                Step::Flush => e.flush().map_err(|x| format!("flush failed: {}", x))?,
            }
        }
        finish(e, c.end, &sink)
    })??;
    let d = lossless(c.fmt, &sink.st().out, &data)?;
    // A block that ends more than an input buffer, a window and a block before what was consumed
    // must have been produced; then no more than the limit of it may still be held back.
    let mut worst = 0;
    for (pos, got) in marks {
        let produced = d
            .inf
            .blocks
            .iter()
            .take_while(|b| b.out_end + 140_000 <= pos)
            .last()
            .map_or(0, |b| d.head + (b.bit_end / 8) as usize);
        let held = produced.saturating_sub(got);
        worst = worst.max(held);
        if held as u64 > HELD_LIMIT / 4 * 3 {
            return Err(format!("{} bytes of output held back after consuming {} bytes", held, pos));
        }
    }
    let mut o = Obs::one(d.inf.out.len() > 140_000);
    hist_classes(&mut o, &steps);
    o.note = format!("{} bytes, at most {} bytes of finished output held back", data.len(), worst);
    Ok(o)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "random histories x random schedules of short and Interrupted sink writes, compared with a sink accepting everything; each sink call of fixed histories hit by each behaviour; non-trivial: at least one short or interrupted write happened",
            arms: vec![
                arm!("random", Source::Gen(c07_strategy, 11_000, 200_000), c07),
                arm!("each_call", Source::List(c07_enum_list), c07_enum),
            ],
        },
        Prop {
            id: "C08",
            rule: "random histories with retries x random schedules of sink errors, zero-length accepts, short and interrupted writes, permanent failures and capacity limits; each sink call of fixed histories hit by each fault in four ways with three endings; non-trivial: the sink failed or accepted nothing at least once",
            arms: vec![
                arm!("random", Source::Gen(c08_strategy, 16_000, 300_000), c08),
                arm!("each_call", Source::List(c08_enum_list), c08_enum),
            ],
        },
        Prop {
            id: "C12",
            rule: "streams of recipes repeated to megabytes with random write sizes, flushes, resets on a counting allocator; non-trivial: more than 100 kB written",
            arms: vec![
                arm!("streams", Source::List(c12_list), c12),
                arm!("random", Source::Gen(c12_strategy, 1600, 20_000), c12),
                arm!("held_back", Source::Gen(|| warm(prop_oneof![noisy_hist(), hist(220_000, 2)].boxed()), 4000, 60_000), c12_held),
            ],
        },
        Prop {
            id: "C14",
            rule: "random histories cut by a panic of the sink at a random call, of the caller between two calls, or completed while another thread unwinds; fixed histories cut at every call; non-trivial: the panic struck",
            arms: vec![
                arm!("random", Source::Gen(c14_strategy, 8000, 150_000), c14),
                arm!("each_call", Source::List(c14_enum_list), c14_enum),
            ],
        },
    ]
}
