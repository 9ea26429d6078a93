//! C01 - C06: losslessness, streaming, determinism, flush, reset, containers.

use crate::core::*;
use crate::gen::*;
use crate::inflate::*;
use crate::runner::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

pub const CAP: usize = 420_000;

pub fn block_classes(o: &mut Obs, inf: &Inflater) {
    let has = |k| inf.blocks.iter().any(|b| b.kind == k && b.out_end > b.out_start);
    o.class_if(has(Kind::Stored), "stored block");
    o.class_if(has(Kind::Fixed), "fixed block");
    o.class_if(has(Kind::Dynamic), "dynamic block");
    o.class_if(inf.blocks.len() > 1, "several blocks");
    o.class_if(!inf.matches.is_empty(), "matches");
    o.class_if(inf.out.len() > 32768, "more than a window");
    o.class_if(inf.out.len() > 65794, "more than the input buffer");
    o.class_if(inf.out.is_empty(), "empty");
}

pub fn interesting(inf: &Inflater) -> bool {
    !inf.matches.is_empty() || inf.blocks.iter().any(|b| b.kind != Kind::Fixed && b.out_end > b.out_start)
}

pub fn same_data(got: &[u8], want: &[u8]) -> Result<(), String> {
    if got != want {
        return Err(format!("decoded data differs from the input: {}", diff(got, want)));
    }
    Ok(())
}

/// Strictly decode a complete stream and compare.
pub fn lossless(fmt: Fmt, out: &[u8], want: &[u8]) -> Result<Decoded, String> {
    let d = decode(fmt, out)?;
    same_data(&d.inf.out, want)?;
    Ok(d)
}

/// A second opinion from an independent decoder.
fn miniz(fmt: Fmt, out: &[u8], want: &[u8]) -> Result<(), String> {
    let r = match fmt {
        Fmt::Raw => miniz_oxide::inflate::decompress_to_vec(out),
        Fmt::Zlib => miniz_oxide::inflate::decompress_to_vec_zlib(out),
        Fmt::Gzip => return Ok(()),
    };
    match r {
        Ok(v) if v == want => Ok(()),
        Ok(_) => Err("miniz_oxide decodes different data".into()),
        Err(e) => Err(format!("miniz_oxide: {:?}", e.status)),
    }
}

// ------------------------------------------------------------------ C01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C01 {
    pub fmt: Fmt,
    /// None: the function without options.
    pub opts: Option<Opts>,
    pub gz: GzRec,
    pub data: Vec<Seg>,
}

pub fn call_one_shot(fmt: Fmt, opts: Option<Opts>, gz: &GzRec, data: &[u8]) -> Vec<u8> {
    match (fmt, opts) {
        (_, Some(o)) => one_shot(fmt, o.get(), gz, data),
        (Fmt::Raw, None) => deflate::deflate_bytes(data),
        (Fmt::Zlib, None) => deflate::deflate_bytes_zlib(data),
        (Fmt::Gzip, None) => deflate::deflate_bytes_gzip(data),
    }
}

fn c01_data(fmt: Fmt, opts: Option<Opts>, gz: &GzRec, data: &[u8]) -> Result<Decoded, String> {
    let out = guard("compression", || call_one_shot(fmt, opts, gz, data))?;
    let d = lossless(fmt, &out, data)?;
    miniz(fmt, &out, data)?;
    Ok(d)
}

fn c01(c: &C01) -> Res {
    let data = expand(&c.data, CAP);
    let d = c01_data(c.fmt, c.opts, &c.gz, &data)?;
    let mut o = Obs::one(interesting(&d.inf));
    block_classes(&mut o, &d.inf);
    o.class(format!("{:?}", c.fmt));
    o.class(c.opts.map_or("no options".into(), |x| x.class()));
    o.note = format!("{} -> {} blocks, {} matches", data.len(), d.inf.blocks.len(), d.inf.matches.len());
    Ok(o)
}

fn c01_strategy() -> BoxedStrategy<C01> {
    (fmt(), proptest::option::weighted(0.85, opts()), gzrec(), data(200_000))
        .prop_map(|(fmt, opts, gz, data)| C01 { fmt, opts, gz, data })
        .boxed()
}

/// Skewed statistics, mostly with the symbols coded just as they are.
fn c01_skew() -> BoxedStrategy<C01> {
    (fmt(), prop_oneof![2 => Just(Opts::Preset(3)), 1 => opts()], skew())
        .prop_map(|(fmt, opts, data)| C01 { fmt, opts: Some(opts), gz: GzRec::default(), data })
        .boxed()
}

/// All strings of one length over a small alphabet.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Small {
    pub alpha: u8,
    pub len: u8,
    pub part: u8,
    pub parts: u8,
    pub opts: Opts,
    pub fmt: Fmt,
}

fn c01_small(c: &Small) -> Res {
    let a = u64::from(c.alpha);
    let total = a.pow(u32::from(c.len));
    let (from, to) = (total * u64::from(c.part) / u64::from(c.parts), total * u64::from(c.part + 1) / u64::from(c.parts));
    let mut o = Obs::default();
    let mut v = vec![0u8; usize::from(c.len)];
    for n in from..to {
        let mut x = n;
        for b in v.iter_mut() {
            *b = (x % a) as u8 * 85;
            x /= a;
        }
        let d = c01_data(c.fmt, Some(c.opts), &GzRec::default(), &v).map_err(|e| format!("input {:?}: {}", v, e))?;
        o.evals += 1;
        o.nontrivial += interesting(&d.inf) as u64;
    }
    o.class("exhaustive short strings");
    Ok(o)
}

fn c01_small_list(thorough: bool) -> Vec<Small> {
    let mut v = vec![];
    let presets = [
        Opts::Preset(0),
        Opts::Preset(1),
        Opts::Preset(2),
        Opts::Preset(3),
        Opts::Preset(4),
        Opts::Custom { checks: 5, lazy_below: 4, lazy: true, special: 0 },
    ];
    let (m2, m3, m4) = if thorough { (15, 9, 7) } else { (12, 7, 5) };
    for (i, &opts) in presets.iter().enumerate() {
        for (alpha, m) in [(2u8, m2), (3, m3), (4, m4)] {
            for len in 0..=m {
                let parts = if u64::from(alpha).pow(u32::from(len)) > 2000 { 4 } else { 1 };
                for part in 0..parts {
                    v.push(Small { alpha, len, part, parts, opts, fmt: [Fmt::Raw, Fmt::Zlib][i % 2] });
                }
            }
        }
    }
    v
}

/// Systematic cases: every match length/distance and every alignment to the boundaries.
fn c01_grid(thorough: bool) -> Vec<C01> {
    let mut v = vec![];
    let mut add = |opts: Opts, data: Vec<Seg>| v.push(C01 { fmt: Fmt::Zlib, opts: Some(opts), gz: GzRec::default(), data });
    let high = Opts::Preset(2);
    let fast = Opts::Preset(0);
    // All distances, the lengths cycling.
    for k in 0..8u16 {
        for (l0, ls) in [(0u16, 1u16), (1, 0), (40, 7), (255, 0)] {
            let c = if ls == 0 && l0 > 100 { 800 } else { 4096 };
            add(if k % 2 == 0 { high } else { fast }, vec![
                Seg::Uniq { seed: u32::from(k), len: 32_768 + 300 },
                Seg::Sweep { seed: 77, count: c, len0: l0, lstep: ls, dist0: k * 4096, dstep: 1 },
            ]);
        }
    }
    // Runs of every length up to two windows in steps, and all small ones.
    for n in 0..700u32 {
        add([high, Opts::Preset(1), fast, Opts::Preset(4)][n as usize % 4], vec![Seg::Run { b: n as u8, len: n }]);
    }
    for n in (0..200u32).map(|i| i * 701) {
        add([Opts::Preset(1), Opts::Preset(4)][n as usize % 2], vec![Seg::Run { b: n as u8, len: n }]);
    }
    // A match or run at every alignment to a boundary.
    let step = if thorough { 1 } else { 5 };
    for unit in [0u8, 1, 2] {
        for (j, d) in (-264i16..=8).enumerate() {
            if (j + usize::from(unit)) % step != 0 && d < -8 {
                continue;
            }
            for (i, &(len, dist)) in [(258u32, 1u16), (258, 20_000), (12, 32_768), (3, 4000)].iter().enumerate() {
                let kind = ((j + i) % 4) as u8;
                let o = [high, fast, Opts::Preset(1), Opts::Preset(4)][(i + j) % 4];
                add(o, vec![
                    Seg::FillTo { seed: 5, unit, delta: 0, kind: 0 },
                    Seg::FillTo { seed: 9, unit, delta: d, kind },
                    Seg::Copy { dist, len },
                    Seg::Uniq { seed: 3, len: 40 },
                ]);
            }
        }
    }
    // Blocks filling up at every phase of a match.
    for k in [1u32, 2] {
        for d in -6i32..=6 {
            for (dist, len) in [(1u16, 3u32), (1, 4), (300, 6), (9000, 258), (30000, 5)] {
                for (i, o) in [high, fast, Opts::Preset(1)].iter().enumerate() {
                    if !thorough && (i as i32 + d + len as i32) % 3 != 0 {
                        continue;
                    }
                    add(*o, vec![
                        Seg::Uniq { seed: k, len: (k as i32 * 31744 + d) as u32 },
                        Seg::Copy { dist, len },
                        Seg::Uniq { seed: k + 9, len: 3000 },
                        Seg::Copy { dist, len },
                    ]);
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ C02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub fmt: Fmt,
    pub opts: Opts,
    pub gz: GzRec,
    pub data: Vec<Seg>,
    pub ops: Vec<Op>,
    pub end: End,
    /// Streams made by the same encoder before, each ended by a reset.
    #[serde(default)]
    pub pre: Vec<Pre>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pre {
    pub data: Vec<Seg>,
    pub ops: Vec<Op>,
    pub gz: GzRec,
}

impl Hist {
    /// The encoder at the start of the history.
    pub fn enc(&self, fmt: Fmt, sink: &Sink) -> Result<Enc<Sink>, String> {
        if self.pre.is_empty() {
            return Ok(Enc::new(fmt, self.opts.get(), &self.gz, sink.clone()));
        }
        let mut e = Enc::new(fmt, self.opts.get(), &self.pre[0].gz, Sink::all());
        for (i, p) in self.pre.iter().enumerate() {
            let data = expand(&p.data, 100_000);
            do_steps(&mut e, &data, &plan(&p.ops, data.len())).map_err(|m| format!("stream before a reset: {}", m))?;
            let (next, gz) = match self.pre.get(i + 1) {
                Some(n) => (Sink::all(), &n.gz),
                None => (sink.clone(), &self.gz),
            };
            e.reset(next, gz).map_err(|x| format!("reset failed: {}", x))?;
        }
        Ok(e)
    }
    pub fn run(&self, fmt: Fmt, data: &[u8], steps: &[Step], end: End, sink: &Sink) -> Result<Vec<u8>, String> {
        let mut e = self.enc(fmt, sink)?;
        do_steps(&mut e, data, steps)?;
        finish(e, end, sink)?;
        Ok(sink.out())
    }
}

/// Now and then, let the history be that of an encoder after a reset.
pub fn warm(s: BoxedStrategy<Hist>) -> BoxedStrategy<Hist> {
    let pre = || {
        (prop_oneof![4 => data(60_000), 2 => c05_chains().prop_map(|s| vec![s]), 1 => Just(vec![])], ops(3), gzrec())
            .prop_map(|(data, ops, gz)| Pre { data, ops, gz })
    };
    let pres = prop_oneof![5 => Just((vec![], false)), 1 => (vec(pre(), 1..3), any::<bool>())];
    (s, pres)
        .prop_map(|(mut h, (mut pre, same))| {
            if same && !h.data.is_empty() {
                // The same data before, so that anything kept would be of use.
                pre[0].data = h.data.clone();
            }
            h.pre = pre;
            h
        })
        .boxed()
}

pub fn end() -> BoxedStrategy<End> {
    prop_oneof![Just(End::Finish), Just(End::Drop)].boxed()
}

pub fn hist(max: u32, flush: u32) -> BoxedStrategy<Hist> {
    (fmt(), opts(), gzrec(), data(max), ops(flush), end())
        .prop_map(|(fmt, opts, gz, data, ops, end)| Hist { fmt, opts, gz, data, ops, end, pre: vec![] })
        .boxed()
}

/// A flush/write boundary next to a window or buffer boundary, matches crossing all of them.
pub fn edge_hist() -> BoxedStrategy<Hist> {
    (
        (fmt(), opts(), end(), boundary_match()),
        (0u8..4, -300i16..=8, 0u8..4, -300i16..=8),
        (any::<bool>(), any::<bool>(), 0u32..400, dist(), 3u32..300),
    )
        .prop_map(|((fmt, opts, end, mut data), (u1, d1, u2, d2), (f1, f2, n, dist, len))| {
            data.push(Seg::FillTo { seed: n, unit: u2, delta: d2, kind: 1 });
            data.push(Seg::Copy { dist, len });
            data.push(Seg::Uniq { seed: n, len: n * 8 });
            let mut ops = vec![Op::WriteTo { unit: u1, delta: d1 }];
            if f1 {
                ops.push(Op::Flush);
            }
            ops.push(Op::Write(n));
            if f2 {
                ops.push(Op::Flush);
            }
            ops.push(Op::WriteTo { unit: u2, delta: d2 });
            ops.push(Op::Flush);
            Hist { fmt, opts, gz: GzRec::default(), data, ops, end, pre: vec![] }
        })
        .boxed()
}

/// Unmatchable literals from a flush on, so that the block is full just where a match crosses the
/// end of the window.
pub fn late_block() -> BoxedStrategy<Hist> {
    (fmt(), opts(), end(), 33_000u32..34_800, -3i32..=3, prop_oneof![3u32..20, 3u32..=258, 258u32..600], dist(), any::<u32>(), 1u8..3)
        .prop_map(|(fmt, opts, end, at, d, len, dist, seed, w)| Hist {
            fmt,
            opts,
            gz: GzRec::default(),
            data: vec![
                Seg::Uniq { seed, len: at + (u32::from(w) - 1) * 32768 },
                Seg::Uniq { seed: seed ^ 1, len: (31743 + d) as u32 },
                Seg::Copy { dist, len },
                Seg::Uniq { seed: seed ^ 2, len: 5000 },
            ],
            ops: vec![Op::Write(at + (u32::from(w) - 1) * 32768), Op::Flush],
            end,
            pre: vec![],
        })
        .boxed()
}

pub fn hist_classes(o: &mut Obs, steps: &[Step]) {
    let w = steps.iter().filter(|s| matches!(s, Step::Write(..))).count();
    let f = steps.len() - w;
    o.class(match w {
        0 | 1 => "1 write",
        2..=5 => "2-5 writes",
        _ => "more than 5 writes",
    });
    o.class_if(f > 0, "flush");
    o.class_if(f > 1, "several flushes");
    o.class_if(steps.first() == Some(&Step::Flush), "flush first");
    o.class_if(steps.iter().any(|s| matches!(s, Step::Write(a, b) if a == b)), "empty write");
}

fn c02(c: &Hist) -> Res {
    let data = expand(&c.data, CAP);
    let steps = plan(&c.ops, data.len());
    let sink = Sink::all();
    let out = guard("stream", || c.run(c.fmt, &data, &steps, c.end, &sink))??;
    let d = lossless(c.fmt, &out, &data)?;
    let mut o = Obs::one(steps.len() > 1 && !data.is_empty());
    block_classes(&mut o, &d.inf);
    hist_classes(&mut o, &steps);
    o.class(format!("{:?}", c.fmt));
    o.class(c.opts.class());
    o.class(format!("{:?}", c.end));
    o.note = format!("{} bytes in {} calls -> {} blocks", data.len(), steps.len(), d.inf.blocks.len());
    Ok(o)
}

/// Flush at every position of short inputs: all subsets.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SmallHist {
    pub data: Vec<u8>,
    pub fmt: Fmt,
    pub opts: Opts,
}

fn small_hist_list(thorough: bool) -> Vec<SmallHist> {
    let mut v = vec![];
    let datas: [&[u8]; 8] = [b"", b"a", b"ab", b"aaa", b"abcab", b"aaaaaa", b"abcabc", b"aabaabaa"];
    for (i, d) in datas.iter().enumerate() {
        for (j, o) in [Opts::Preset(1), Opts::Preset(0), Opts::Preset(4), Opts::Preset(3), Opts::Preset(2)].iter().enumerate() {
            for fmt in [Fmt::Raw, Fmt::Zlib, Fmt::Gzip] {
                if d.len() > 6 && (i + j) % 2 == 1 && !thorough {
                    continue;
                }
                v.push(SmallHist { data: d.to_vec(), fmt, opts: *o });
            }
        }
    }
    v
}

/// Every way of cutting a short input into single writes with a subset of the gaps (including the
/// very start and end) holding a flush, a write boundary or nothing.
fn c02_small(c: &SmallHist) -> Res {
    let n = c.data.len();
    let gaps = n as u32 + 1;
    let mut o = Obs::default();
    for code in 0..3u64.pow(gaps) {
        let mut x = code;
        let mut steps = vec![];
        let mut from = 0;
        for g in 0..=n {
            let k = x % 3;
            x /= 3;
            if k > 0 || g == n {
                if from < g || k == 1 {
                    steps.push(Step::Write(from, g));
                }
                from = g;
            }
            if k == 2 {
                steps.push(Step::Flush);
            }
        }
        let sink = Sink::all();
        let end = if code % 2 == 0 { End::Finish } else { End::Drop };
        let out = guard("stream", || {
            let mut e = Enc::new(c.fmt, c.opts.get(), &GzRec::default(), sink.clone());
            let mut inf = Inflater::new();
            for (i, s) in steps.iter().enumerate() {
                do_steps(&mut e, &c.data, &steps[i..=i])?;
                if *s == Step::Flush {
                    let done = steps[..=i].iter().map(|s| if let Step::Write(_, b) = s { *b } else { 0 }).max().unwrap_or(0);
                    flushed(c.fmt, &sink.st().out, &mut inf, &c.data[..done])?;
                }
            }
            finish(e, end, &sink)?;
            Ok(sink.out())
        })
        .and_then(|r| r)
        .map_err(|e: String| format!("steps {:?}: {}", steps, e))?;
        lossless(c.fmt, &out, &c.data).map_err(|e| format!("steps {:?}: {}", steps, e))?;
        o.evals += 1;
        o.nontrivial += (steps.len() > 1) as u64;
    }
    o.class("exhaustive short histories");
    Ok(o)
}

/// Many megabytes of changing data: hundreds of windows, thousands of blocks, on one encoder.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mega {
    pub fmt: Fmt,
    pub opts: Opts,
    /// Total length, in KiB.
    pub kib: u16,
    pub seed: u32,
    /// Longest phase of one kind of data, longest write.
    pub phase: u32,
    pub write: u32,
    /// Flush after one in so many writes; 0: never.
    pub flush: u16,
}

pub fn mega_data(c: &Mega) -> Vec<u8> {
    let cap = usize::from(c.kib) << 10;
    let mut r = Rng(u64::from(c.seed) | 1 << 40);
    let mut v = Vec::with_capacity(cap);
    while v.len() < cap {
        let len = r.range(1, c.phase.max(2) as usize) as u32;
        let seed = r.next() as u32;
        let s = match r.below(8) {
            0 => Seg::Rand { seed, len, alpha: r.range(2, 256) as u16, base: r.byte(), stride: 1 },
            1 => Seg::Run { b: r.byte(), len },
            2 => Seg::Copy { dist: r.range(1, 32768) as u16, len },
            3 => Seg::Uniq { seed, len: len / 4 + 1 },
            4 | 5 => Seg::Text { seed, len, words: r.range(20, 5000) as u16 },
            6 => Seg::Geo { seed, len, k: r.range(1, 40) as u8 },
            _ => Seg::Sparse { seed, len, every: r.range(1, 60) as u16, mlen: (3, 258), dist: (1, 32768) },
        };
        s.expand(&mut v, cap);
    }
    v
}

fn c02_mega(c: &Mega) -> Res {
    let data = mega_data(c);
    let mut r = Rng(u64::from(c.seed) | 2 << 40);
    let sink = Sink::all();
    guard("history", || -> Result<(), String> {
        let mut e = Enc::new(c.fmt, c.opts.get(), &GzRec::default(), sink.clone());
        let mut p = 0;
        while p < data.len() {
            let l = r.range(1, c.write.max(2) as usize).min(data.len() - p);
            feed(&mut e, &data[p..p + l], nop)?;
            p += l;
            if c.flush > 0 && r.below(usize::from(c.flush)) == 0 {
                e.flush().map_err(|x| format!("flush: {}", x))?;
            }
        }
        e.finish().map(|_| ()).map_err(|x| format!("finish: {}", x))
    })??;
    let out = sink.take_out();
    let d = lossless(c.fmt, &out, &data)?;
    let mut o = Obs::one(interesting(&d.inf));
    block_classes(&mut o, &d.inf);
    o.class_if(data.len() > 4 << 20, "more than 4 MiB");
    o.class_if(data.len() > 16 << 20, "more than 16 MiB");
    o.class_if(d.inf.blocks.len() > 256, "more than 256 blocks");
    o.note = format!("{} -> {} blocks, {} matches", data.len(), d.inf.blocks.len(), d.inf.matches.len());
    Ok(o)
}

fn c02_mega_strategy() -> BoxedStrategy<Mega> {
    let kib = prop_oneof![3 => 1000u16..9000, 1 => 9000u16..60_000];
    // Slow searches are for short data.
    let opts = prop_oneof![6 => (0u8..5).prop_map(Opts::Preset), 2 => opts()];
    (fmt(), opts, kib, any::<u32>(), prop_oneof![3 => 300u32..5000, 3 => 5000u32..300_000, 1 => 300_000u32..9_000_000],
     prop_oneof![2 => 400u32..3000, 5 => 3000u32..200_000, 1 => Just(u32::MAX >> 1)], prop_oneof![2 => Just(0u16), 1 => 1u16..40])
        .prop_map(|(fmt, opts, kib, seed, phase, write, flush)| {
            let kib = if matches!(opts, Opts::Preset(0 | 1 | 3 | 4)) { kib } else { kib / 8 };
            Mega { fmt, opts, kib, seed, phase, write, flush }
        })
        .boxed()
}

// ------------------------------------------------------------------ C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C03 {
    pub fmt: Fmt,
    pub opts: Opts,
    pub gz: GzRec,
    pub data: Vec<Seg>,
    pub a: (Vec<Op>, End),
    pub b: (Vec<Op>, End),
}

fn c03(c: &C03) -> Res {
    let data = expand(&c.data, CAP);
    let want = guard("one-shot", || one_shot(c.fmt, c.opts.get(), &c.gz, &data))?;
    let mut o = Obs::one(false);
    for (i, (ops, end)) in [&c.a, &c.b].into_iter().enumerate() {
        let steps = plan(ops, data.len());
        let sink = Sink::all();
        let out = guard("stream", || run_history(c.fmt, c.opts.get(), &c.gz, &data, &steps, *end, &sink))??;
        if out != want {
            return Err(format!("split {} gives other bytes than the one-shot function: {}", i, diff(&out, &want)));
        }
        if steps.len() > 1 && !data.is_empty() {
            o.nontrivial = 1;
        }
        hist_classes(&mut o, &steps);
    }
    o.class_if(data.len() > 32768, "more than a window");
    o.class_if(data.len() > 65794, "more than the input buffer");
    o.class(c.opts.class());
    o.note = format!("{} bytes -> {}", data.len(), want.len());
    Ok(o)
}

fn c03_strategy() -> BoxedStrategy<C03> {
    (fmt(), opts(), gzrec(), data(220_000), (ops(0), end()), (ops(0), end()))
        .prop_map(|(fmt, opts, gz, data, a, b)| C03 { fmt, opts, gz, data, a, b })
        .boxed()
}

/// Splits right at the boundaries, one byte at a time around them.
fn c03_edges() -> BoxedStrategy<C03> {
    let around = || {
        vec((0u8..8, -6i16..=2, 1u16..20, 1u16..4), 1..4).prop_map(|v| {
            let mut ops = vec![];
            for (unit, delta, n, step) in v {
                ops.push(Op::WriteTo { unit, delta });
                ops.push(Op::Steps { n, step });
            }
            ops
        })
    };
    (fmt(), opts(), prop_oneof![boundary_match(), full_block(), data(220_000)], (around(), end()), (around(), end()))
        .prop_map(|(fmt, opts, mut data, a, b)| {
            data.push(Seg::FillTo { seed: 3, unit: 2, delta: 40, kind: 3 });
            C03 { fmt, opts, gz: GzRec::default(), data, a, b }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Two {
    pub a: Hist,
    pub b: Hist,
    pub threads: bool,
}

/// The same histories (with flushes) alone, again, alternating with another encoder and in
/// parallel threads.
fn c03_two(c: &Two) -> Res {
    let (da, db) = (expand(&c.a.data, CAP), expand(&c.b.data, CAP));
    let (sa, sb) = (plan(&c.a.ops, da.len()), plan(&c.b.ops, db.len()));
    let solo = |h: &Hist, d: &[u8], s: &[Step]| {
        let sink = Sink::all();
        guard("stream", || h.run(h.fmt, d, s, h.end, &sink))?
    };
    let oa = solo(&c.a, &da, &sa)?;
    let ob = solo(&c.b, &db, &sb)?;
    let ne = |what: &str, x: &[u8], y: &[u8]| if x == y { Ok(()) } else { Err(format!("{}: {}", what, diff(x, y))) };
    if c.threads {
        let r: Vec<Result<Vec<u8>, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = [(&c.a, &da, &sa), (&c.b, &db, &sb), (&c.a, &da, &sa)]
                .into_iter()
                .map(|(h, d, st)| s.spawn(move || solo_run(h, d, st)))
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect()
        });
        for (i, x) in r.into_iter().enumerate() {
            ne("output on a thread differs", &x?, if i == 1 { &ob } else { &oa })?;
        }
    } else {
        ne("the same calls again give other bytes", &solo(&c.a, &da, &sa)?, &oa)?;
        let (ka, kb) = (Sink::all(), Sink::all());
        guard("stream", || -> Result<(), String> {
            let mut ea = c.a.enc(c.a.fmt, &ka)?;
            let mut eb = c.b.enc(c.b.fmt, &kb)?;
            for i in 0..sa.len().max(sb.len()) {
                if i < sa.len() {
                    do_steps(&mut ea, &da, &sa[i..=i])?;
                }
                if i < sb.len() {
                    do_steps(&mut eb, &db, &sb[i..=i])?;
                }
            }
            finish(eb, c.b.end, &kb)?;
            finish(ea, c.a.end, &ka)
        })??;
        ne("output of alternating encoders differs", &ka.out(), &oa)?;
        ne("output of alternating encoders differs", &kb.out(), &ob)?;
    }
    let mut o = Obs::one(!da.is_empty() && !db.is_empty());
    hist_classes(&mut o, &sa);
    o.class(if c.threads { "threads" } else { "repeated and alternating" });
    Ok(o)
}

fn solo_run(h: &Hist, d: &[u8], s: &[Step]) -> Result<Vec<u8>, String> {
    let sink = Sink::all();
    guard("stream", || h.run(h.fmt, d, s, h.end, &sink))?
}

fn c03_two_strategy() -> BoxedStrategy<Two> {
    (hist(100_000, 2), hist(100_000, 2), proptest::bool::weighted(0.3)).prop_map(|(a, b, threads)| Two { a, b, threads }).boxed()
}

/// All two-piece splits of an input around a position.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cuts {
    pub data: Vec<Seg>,
    pub opts: Opts,
    pub at: u32,
    pub span: u32,
}

fn cuts_list(thorough: bool) -> Vec<Cuts> {
    let mut v = vec![];
    let span = if thorough { 40 } else { 12 };
    for (i, at) in [3u32, 258, 31744, 32768, 65536, 65794, 65536 + 32768, 98_562].into_iter().enumerate() {
        for (j, data) in [
            vec![Seg::Text { seed: 1, len: 140_000, words: 900 }],
            vec![Seg::Rand { seed: 3, len: 140_000, alpha: 2, base: 0, stride: 1 }],
            vec![Seg::Runs { seed: 5, len: 140_000, max: 400, alpha: 3 }],
            vec![Seg::Uniq { seed: 4, len: 65_530 }, Seg::Copy { dist: 700, len: 300 }, Seg::Uniq { seed: 5, len: 50_000 }],
        ]
        .into_iter()
        .enumerate()
        {
            for (k, opts) in [Opts::Preset(1), Opts::Preset(0), Opts::Preset(4)].into_iter().enumerate() {
                if thorough || (i + j + k) % 3 == 0 {
                    v.push(Cuts { data: data.clone(), opts, at, span });
                }
            }
        }
    }
    v
}

fn c03_cuts(c: &Cuts) -> Res {
    let data = expand(&c.data, CAP);
    let want = guard("one-shot", || one_shot(Fmt::Raw, c.opts.get(), &GzRec::default(), &data))?;
    let mut o = Obs::default();
    for p in c.at.saturating_sub(c.span) as usize..=(c.at + c.span) as usize {
        let p = p.min(data.len());
        let sink = Sink::all();
        let steps = [Step::Write(0, p), Step::Write(p, data.len())];
        let out = guard("stream", || run_history(Fmt::Raw, c.opts.get(), &GzRec::default(), &data, &steps, End::Finish, &sink))??;
        if out != want {
            return Err(format!("split at {}: {}", p, diff(&out, &want)));
        }
        o.evals += 1;
        o.nontrivial += 1;
    }
    o.class("every split around a boundary");
    Ok(o)
}

// ------------------------------------------------------------------ C04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C04 {
    pub h: Hist,
    pub sched: Sched,
}

/// The sink's content after a successful flush.
pub fn flushed(fmt: Fmt, out: &[u8], inf: &mut Inflater, want: &[u8]) -> Result<(), String> {
    let head = match fmt {
        Fmt::Raw => 0,
        Fmt::Zlib => zlib_header(out)?.ok_or("no complete zlib header after a flush")?,
        Fmt::Gzip => gzip_header(out)?.ok_or("no complete gzip header after a flush")?.len,
    };
    let body = &out[head..];
    match inf.run(body) {
        Stop::Truncated => (),
        Stop::Done => return Err("the stream is already complete after a flush".into()),
        Stop::Invalid(e) => return Err(format!("invalid stream after a flush: {}", e)),
    }
    if inf.bitpos != body.len() as u64 * 8 {
        return Err(format!(
            "the flushed output does not end at a block and byte boundary ({} of {} bits, {} of {} bytes decoded)",
            inf.bitpos,
            body.len() * 8,
            inf.out.len(),
            want.len()
        ));
    }
    if inf.out != want {
        return Err(format!("flushed output decodes to other data: {}", diff(&inf.out, want)));
    }
    match inf.blocks.last() {
        Some(b) if b.kind == Kind::Stored && b.out_start == b.out_end && !b.fin => (),
        b => return Err(format!("the flushed output ends with {:?}", b.map(|b| (b.kind, b.out_end - b.out_start, b.fin)))),
    }
    if !body.ends_with(&[0, 0, 0xff, 0xff]) {
        return Err("no flush marker".into());
    }
    Ok(())
}

fn c04(c: &C04) -> Res {
    let h = &c.h;
    let data = expand(&h.data, CAP);
    let mut steps = plan(&h.ops, data.len());
    if !steps.contains(&Step::Flush) {
        let at = steps.len() / 2;
        steps.insert(at, Step::Flush);
    }
    let sink = Sink::new(c.sched.clone());
    let mut flushes = 0;
    let mut at_edge = false;
    guard("stream", || -> Result<(), String> {
        let mut e = h.enc(h.fmt, &sink)?;
        let mut inf = Inflater::new();
        let mut done = 0;
        for (i, s) in steps.iter().enumerate() {
            do_steps(&mut e, &data, &steps[i..=i])?;
            match *s {
                Step::Write(_, b) => done = b,
                Step::Flush => {
                    flushes += 1;
                    at_edge |= done > 30_000 && (done % 32768 < 300 || done % 32768 > 32468);
                    flushed(h.fmt, &sink.st().out, &mut inf, &data[..done]).map_err(|e| format!("call {}: {}", i, e))?;
                }
            }
        }
        finish(e, h.end, &sink)
    })??;
    let d = lossless(h.fmt, &sink.st().out, &data)?;
    let mut o = Obs::one(!data.is_empty());
    hist_classes(&mut o, &steps);
    block_classes(&mut o, &d.inf);
    o.class(format!("{:?}", h.fmt));
    o.class(h.opts.class());
    o.class_if(at_edge, "flush next to a window boundary");
    let s = sink.st();
    o.class_if(s.shorts > 0, "short writes");
    o.class_if(s.interrupts > 0, "interrupted writes");
    o.note = format!("{} bytes, {} flushes, {} sink calls", data.len(), flushes, s.calls);
    Ok(o)
}

pub fn some_sched() -> BoxedStrategy<Sched> {
    prop_oneof![2 => Just(Sched::all()), 1 => sched(benign_beh())].boxed()
}

fn c04_strategy() -> BoxedStrategy<C04> {
    (warm(prop_oneof![6 => hist(200_000, 6), 3 => edge_hist(), 1 => late_block()].boxed()), some_sched())
        .prop_map(|(h, sched)| C04 { h, sched })
        .boxed()
}

// ------------------------------------------------------------------ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Part {
    pub data: Vec<Seg>,
    pub ops: Vec<Op>,
    pub gz: GzRec,
    pub sched: Sched,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C05 {
    pub fmt: Fmt,
    pub opts: Opts,
    pub parts: Vec<Part>,
    pub end: End,
    /// The sinks fail for some time, and all calls are repeated until they succeed; flushes
    /// perhaps not.
    #[serde(default)]
    pub faults: Option<bool>,
}

fn c05(c: &C05) -> Res {
    let sinks: Vec<Sink> = c.parts.iter().map(|p| Sink::new(p.sched.clone())).collect();
    let datas: Vec<Vec<u8>> = c.parts.iter().map(|p| expand(&p.data, 200_000)).collect();
    let plans: Vec<Vec<Step>> = c.parts.iter().zip(&datas).map(|(p, d)| plan(&p.ops, d.len())).collect();
    guard("stream", || -> Result<(), String> {
        let mut e = Enc::new(c.fmt, c.opts.get(), &c.parts[0].gz, sinks[0].clone());
        for i in 0..c.parts.len() {
            let start = e.checksum();
            let zero = match c.fmt {
                Fmt::Raw => None,
                Fmt::Zlib => Some(1),
                Fmt::Gzip => Some(0),
            };
            if start != zero {
                return Err(format!("checksum at the start of stream {} is {:?}", i, start));
            }
            match c.faults {
                None => do_steps(&mut e, &datas[i], &plans[i]),
                Some(skip) => stubborn(&mut e, &datas[i], &plans[i], skip, nop),
            }
            .map_err(|e| format!("stream {}: {}", i, e))?;
            let sum = e.checksum();
            let want = match c.fmt {
                Fmt::Raw => None,
                Fmt::Zlib => Some(adler32(&datas[i])),
                Fmt::Gzip => Some(crc32(&datas[i])),
            };
            if sum != want {
                return Err(format!("checksum of stream {}: {:x?} instead of {:x?}", i, sum, want));
            }
            if i + 1 < c.parts.len() {
                let (next, gz) = (&sinks[i + 1], &c.parts[i + 1].gz);
                let old = match c.faults {
                    None => e.reset(next.clone(), gz).map_err(|x| x.to_string()),
                    Some(_) => stubborn_reset(&mut e, next, gz),
                }
                .map_err(|x| format!("reset {} failed: {}", i, x))?;
                if !old.same(&sinks[i]) {
                    return Err(format!("reset {} returned another writer", i));
                }
                if sinks[i + 1].len() != 0 {
                    return Err("reset wrote to the new writer".into());
                }
            } else {
                let calls = sinks[..i].iter().map(|s| s.st().calls).sum::<usize>();
                if c.faults.is_some() {
                    stubborn_reset(&mut e, &Sink::all(), &GzRec::default())?;
                    std::mem::forget(e);
                } else {
                    finish(e, c.end, &sinks[i])?;
                }
                if calls != sinks[..i].iter().map(|s| s.st().calls).sum::<usize>() {
                    return Err("an earlier writer was called after the reset".into());
                }
                break;
            }
        }
        Ok(())
    })??;
    for i in 0..c.parts.len() {
        lossless(c.fmt, &sinks[i].st().out, &datas[i]).map_err(|e| format!("stream {}: {}", i, e))?;
        let fresh = Sink::new(c.parts[i].sched.clone());
        guard("fresh encoder", || {
            let p = &c.parts[i];
            match c.faults {
                None => run_history(c.fmt, c.opts.get(), &p.gz, &datas[i], &plans[i], End::Finish, &fresh).map(|_| ()),
                Some(skip) => {
                    let mut e = Enc::new(c.fmt, c.opts.get(), &p.gz, fresh.clone());
                    stubborn(&mut e, &datas[i], &plans[i], skip, nop)?;
                    stubborn_reset(&mut e, &Sink::all(), &GzRec::default()).map(|_| ())
                }
            }
        })??;
        let (a, b) = (sinks[i].st(), fresh.st());
        if a.out != b.out {
            return Err(format!("stream {} differs from that of a new encoder: {}", i, diff(&a.out, &b.out)));
        }
    }
    let mut o = Obs::one(c.parts.len() > 1 && !datas[0].is_empty() && datas[1..].iter().any(|d| !d.is_empty()));
    o.class(format!("{:?}", c.fmt));
    o.class(c.opts.class());
    o.class(format!("{} streams", c.parts.len()));
    o.class_if(sinks[..sinks.len() - 1].iter().any(|s| !s.st().errs.is_empty()), "sink errors before a reset");
    o.class_if(sinks[1..].iter().any(|s| !s.st().errs.is_empty()), "sink errors after a reset");
    o.class_if(datas[..datas.len() - 1].iter().any(|d| d.len() > 32768), "more than a window before a reset");
    o.class_if(datas[1..].iter().any(|d| d.len() > 32768), "more than a window after a reset");
    o.class_if(plans[..plans.len() - 1].iter().any(|p| p.last() == Some(&Step::Flush)), "flush just before reset");
    o.class_if(plans[1..].iter().any(|p| p.first() == Some(&Step::Flush)), "flush just after reset");
    o.note = format!("data lengths {:?}", datas.iter().map(|d| d.len()).collect::<Vec<_>>());
    Ok(o)
}

fn part() -> BoxedStrategy<Part> {
    (data(100_000), ops(3), gzrec(), some_sched())
        .prop_map(|(data, ops, gz, sched)| Part { data, ops, gz, sched })
        .boxed()
}

fn c05_strategy() -> BoxedStrategy<C05> {
    (fmt(), opts(), vec(part(), 2..5), end(), 0u8..4, any::<u32>())
        .prop_map(|(fmt, opts, mut parts, end, share, seed)| {
            // Make later streams repeat earlier data, so that anything kept is used.
            if share > 0 {
                let d = parts[0].data.clone();
                for (i, p) in parts.iter_mut().enumerate().skip(1) {
                    match share {
                        1 => p.data = d.clone(),
                        2 => {
                            let mut x = d.clone();
                            x.truncate(1 + i % 3);
                            x.extend(p.data.drain(..).take(2));
                            p.data = x;
                        }
                        _ => {
                            p.data.truncate(2);
                            p.data.insert(0, Seg::Runs { seed: seed ^ i as u32, len: 3000 + seed % 70_000, max: 9, alpha: 2 });
                        }
                    }
                }
            }
            C05 { fmt, opts, parts, end, faults: None }
        })
        .boxed()
}

fn c05_chains() -> BoxedStrategy<Seg> {
    (any::<u32>(), 20_000u32..70_000, 1u16..5, 1u16..40)
        .prop_map(|(seed, len, alpha, period)| {
            if alpha == 1 {
                Seg::Run { b: seed as u8, len }
            } else if alpha == 2 {
                Seg::Period { seed, period, len }
            } else {
                Seg::Rand { seed, len, alpha, base: 0, stride: 1 }
            }
        })
        .boxed()
}

fn c05_faults() -> BoxedStrategy<C05> {
    (c05_strategy(), vec(sched(faulty_beh()), 4), any::<bool>(), proptest::option::weighted(0.4, vec(noisy_data(), 4)))
        .prop_map(|(mut c, sched, skip, noisy)| {
            for (i, p) in c.parts.iter_mut().enumerate() {
                p.sched = sched[i].clone();
                if let Some(n) = &noisy {
                    p.data = n[i].clone();
                }
            }
            c.faults = Some(skip);
            c
        })
        .boxed()
}

fn noisy_data() -> BoxedStrategy<Vec<Seg>> {
    crate::sinks::noisy_hist().prop_map(|h| h.data).boxed()
}

/// A first stream filling the hash chains, then one with many positions which cannot be entered
/// into them (flushes every few bytes), then repetitions of that data.
fn c05_stale() -> BoxedStrategy<C05> {
    let chains = c05_chains();
    let again = (any::<u32>(), 200u32..20_000, prop_oneof![2u16..40, 200u16..=256], 1u16..6, any::<bool>(), 100u32..20_000, dist(), any::<bool>());
    (fmt(), opts(), chains, again, some_sched())
        .prop_map(|(fmt, opts, a, (seed, len, alpha, step, empty, more, dist, fin), sched)| {
            let p0 = Part { data: vec![a], ops: vec![], gz: GzRec::default(), sched: sched.clone() };
            let x = vec![
                Seg::Rand { seed, len, alpha, base: 0, stride: 1 },
                Seg::Copy { dist: if fin { len as u16 } else { dist }, len: more },
                Seg::Rand { seed: seed ^ 1, len: more, alpha, base: 0, stride: 1 },
            ];
            let n = (len / u32::from(step)).min(3000) as u16;
            let p1 = Part { data: x, ops: vec![Op::Pulse { n, step, empty }], gz: GzRec::default(), sched };
            C05 { fmt, opts, parts: vec![p0, p1], end: End::Finish, faults: None }
        })
        .boxed()
}

// ------------------------------------------------------------------ C06

fn sum_of(fmt: Fmt, start: Option<u32>, d: &[u8]) -> Option<u32> {
    match fmt {
        Fmt::Raw => None,
        Fmt::Zlib => Some(adler32_add(start.unwrap_or(1), d)),
        Fmt::Gzip => Some(crc32_add(start.unwrap_or(0), d)),
    }
}

fn check_head(fmt: Fmt, gz: &GzRec, out: &[u8], head: usize) -> Result<(), String> {
    match fmt {
        Fmt::Raw => Ok(()),
        Fmt::Zlib => {
            if head != 2 {
                return Err("zlib header length".into());
            }
            Ok(())
        }
        Fmt::Gzip => {
            let h = gzip_header(out)?.ok_or("incomplete gzip header")?;
            let want = gz.builder().into_header();
            if out[..head] != want[..] {
                return Err(format!("gzip header is not the one of the builder: {}", diff(&out[..head], &want)));
            }
            // Independently of the builder crate:
            if h.name != gz.name || h.comment != gz.comment || h.extra != gz.extra {
                return Err(format!("gzip header fields: {:?}", h));
            }
            if h.mtime != gz.mtime.unwrap_or(0) || h.xfl != gzip_header::ExtraFlags::from_u8(gz.xfl.unwrap_or(0)).as_u8() || gz.os.map_or(false, |x| x != h.os) {
                return Err(format!("gzip header fields: {:?}", h));
            }
            Ok(())
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C06 {
    pub h: Hist,
    pub sched: Sched,
    /// The sink fails for some time, calls are repeated.
    #[serde(default)]
    pub faults: bool,
}

fn c06(c: &C06) -> Res {
    let h = &c.h;
    let fmt = if h.fmt == Fmt::Raw { Fmt::Gzip } else { h.fmt };
    let data = expand(&h.data, CAP);
    let steps = plan(&h.ops, data.len());
    let sink = Sink::new(c.sched.clone());
    let mut partial = false;
    guard("stream", || -> Result<(), String> {
        let mut e = h.enc(fmt, &sink)?;
        let mut sum = sum_of(fmt, None, &[]);
        let mut pos = 0;
        let want = |e: &Enc<Sink>, sum: Option<u32>, pos: usize| {
            if e.checksum() != sum {
                return Err(format!("checksum() is {:x?} after {} bytes, should be {:x?}", e.checksum(), pos, sum));
            }
            Ok(())
        };
        want(&e, sum, 0)?;
        if c.faults {
            stubborn(&mut e, &data, &steps, false, |e, n| {
                sum = sum_of(fmt, sum, &data[pos..pos + n]);
                pos += n;
                want(e, sum, pos)
            })?;
            stubborn_reset(&mut e, &Sink::all(), &GzRec::default())?;
            want(&e, sum_of(fmt, None, &[]), 0)?;
            return Ok(());
        }
        for s in &steps {
            match *s {
                Step::Write(a, b) => feed(&mut e, &data[a..b], |e, n| {
                    partial |= n < b - pos;
                    sum = sum_of(fmt, sum, &data[pos..pos + n]);
                    pos += n;
                    want(e, sum, pos)
                })?,
                Step::Flush => {
                    e.flush().map_err(|x| format!("flush failed: {}", x))?;
                    want(&e, sum, pos)?;
                }
            }
        }
        finish(e, h.end, &sink)
    })??;
    let st = sink.st();
    let d = lossless(fmt, &st.out, &data)?;
    check_head(fmt, &h.gz, &st.out, d.head)?;
    // Whatever the sink does, the raw encoder with a perfect sink gives the body.
    let raw = Sink::all();
    guard("raw encoder", || run_history(Fmt::Raw, h.opts.get(), &h.gz, &data, &steps, h.end, &raw))??;
    let body = &st.out[d.head..st.out.len() - d.tail];
    if body != &raw.st().out[..] {
        return Err(format!("body differs from the raw deflate stream: {}", diff(body, &raw.st().out)));
    }
    // The one-shot functions.
    let one = guard("one-shot", || one_shot(fmt, h.opts.get(), &h.gz, &data))?;
    let d1 = lossless(fmt, &one, &data)?;
    check_head(fmt, &h.gz, &one, d1.head)?;
    if one[..d1.head] != st.out[..d.head] {
        return Err("one-shot and streaming header differ".into());
    }
    let one = guard("one-shot", || call_one_shot(fmt, None, &GzRec::default(), &data))?;
    let d1 = lossless(fmt, &one, &data)?;
    check_head(fmt, &GzRec::default(), &one, d1.head)?;
    let mut o = Obs::one(!data.is_empty());
    hist_classes(&mut o, &steps);
    o.class(format!("{:?}", fmt));
    o.class_if(partial, "partially consumed writes");
    o.class_if(fmt == Fmt::Gzip && h.gz != GzRec::default(), "custom header");
    o.class_if(h.gz.extra.as_ref().map_or(false, |x| x.len() > 32768), "header larger than the output buffer");
    o.note = format!("{} bytes, header {}", data.len(), d.head);
    Ok(o)
}

fn c06_strategy() -> BoxedStrategy<C06> {
    (warm(hist(200_000, 2)), some_sched())
        .prop_map(|(h, sched)| C06 { h, sched, faults: false })
        .boxed()
}

fn c06_faults() -> BoxedStrategy<C06> {
    (warm(prop_oneof![hist(120_000, 2), crate::sinks::noisy_hist()].boxed()), sched(faulty_beh()))
        .prop_map(|(h, sched)| C06 { h, sched, faults: true })
        .boxed()
}

/// A very long input, written piece by piece.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    pub fmt: Fmt,
    pub total: u64,
    pub opts: Opts,
    pub piece: u32,
}

struct Tail(Vec<u8>, u64, Vec<u8>);
impl std::io::Write for Tail {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 += b.len() as u64;
        if self.2.len() < 64 {
            self.2.extend_from_slice(&b[..b.len().min(64)]);
        }
        self.0.extend_from_slice(&b[b.len().saturating_sub(64)..]);
        let n = self.0.len().saturating_sub(64);
        self.0.drain(..n);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn c06_long(c: &Long) -> Res {
    let piece: Vec<u8> = (0..c.piece).map(|i| (i >> 14) as u8 ^ 0xf1).collect();
    let mut sum = sum_of(c.fmt, None, &[]);
    let tail = guard("stream", || -> Result<Tail, String> {
        let mut e = Enc::new(c.fmt, c.opts.get(), &GzRec::default(), Tail(vec![], 0, vec![]));
        let mut left = c.total;
        let mut n = 0u64;
        while left > 0 {
            let l = left.min(piece.len() as u64) as usize;
            feed(&mut e, &piece[..l], nop)?;
            sum = sum_of(c.fmt, sum, &piece[..l]);
            left -= l as u64;
            n += 1;
            if n % 64 == 0 && e.checksum() != sum {
                return Err(format!("checksum() after {} bytes: {:x?} instead of {:x?}", c.total - left, e.checksum(), sum));
            }
        }
        if e.checksum() != sum {
            return Err(format!("checksum() at the end: {:x?} instead of {:x?}", e.checksum(), sum));
        }
        e.finish().map_err(|x| format!("finish: {}", x))
    })??;
    let t = &tail.0;
    let s = sum.unwrap_or(0);
    let ok = match c.fmt {
        Fmt::Raw => true,
        Fmt::Zlib => t.ends_with(&s.to_be_bytes()),
        Fmt::Gzip => {
            let mut v = s.to_le_bytes().to_vec();
            v.extend_from_slice(&(c.total as u32).to_le_bytes());
            t.ends_with(&v)
        }
    };
    if !ok {
        return Err(format!("trailer after {} bytes: {:02x?}, checksum {:08x}", c.total, &t[t.len().saturating_sub(8)..], s));
    }
    let mut o = Obs::one(true);
    o.class(if c.total > u32::MAX as u64 { "beyond 4 GiB" } else { "hundreds of MiB" });
    o.note = format!("{} bytes -> {} bytes", c.total, tail.1);
    Ok(o)
}

fn c06_long_list(thorough: bool) -> Vec<Long> {
    let g = 1u64 << 32;
    let rle = Opts::Preset(4);
    let mut v = vec![
        Long { fmt: Fmt::Gzip, total: g + 12_345, opts: rle, piece: 1 << 20 },
        Long { fmt: Fmt::Zlib, total: g + 3, opts: rle, piece: 7_777_777 },
    ];
    if thorough {
        v.push(Long { fmt: Fmt::Gzip, total: 2 * g + 1, opts: rle, piece: 1 << 20 });
        v.push(Long { fmt: Fmt::Gzip, total: g, opts: rle, piece: 5_000_011 });
        v.push(Long { fmt: Fmt::Gzip, total: g - 1, opts: rle, piece: 65_794 });
        v.push(Long { fmt: Fmt::Zlib, total: g + 1, opts: rle, piece: 1 << 16 });
    }
    v
}

// ------------------------------------------------------------------

#[macro_export]
macro_rules! arm {
    ($name:expr, $src:expr, $check:expr) => {
        Box::new(Arm { name: $name, src: $src, check: $check }) as Box<dyn AnyArm>
    };
}


pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "an input is expanded from a recipe of segments (noise, runs, copies at chosen distances, text, skewed frequencies, fills up to window/buffer/block boundaries), options and entry point are random, short strings over small alphabets are enumerated; non-trivial: the stream contains a match or a non-empty dynamic or stored block",
            arms: vec![
                arm!("random", Source::Gen(c01_strategy, 14_000, 300_000), c01),
                arm!("skew", Source::Gen(c01_skew, 10_000, 200_000), c01),
                arm!("grid", Source::List(c01_grid), c01),
                arm!("small", Source::List(c01_small_list), c01_small),
            ],
        },
        Prop {
            id: "C02",
            rule: "data recipe + random sequence of write sizes, empty writes, flushes and finish/drop, biased to window, buffer and block boundaries; all histories of short strings are enumerated; non-trivial: more than one call on non-empty data",
            arms: vec![
                arm!("random", Source::Gen(|| warm(hist(220_000, 2)), 12_000, 250_000), c02),
                arm!("edges", Source::Gen(|| warm(edge_hist()), 5000, 100_000), c02),
                arm!("late_block", Source::Gen(late_block, 1600, 20_000), c02),
                arm!("mega", Source::Gen(c02_mega_strategy, 48, 1500), c02_mega),
                arm!("small", Source::List(small_hist_list), c02_small),
            ],
        },
        Prop {
            id: "C03",
            rule: "data recipe + two random splits into writes (finish or drop) compared with the one-shot output; pairs of flush histories repeated, alternating and on threads; all splits next to boundaries; non-trivial: more than one write of non-empty data",
            arms: vec![
                arm!("random", Source::Gen(c03_strategy, 7000, 150_000), c03),
                arm!("edges", Source::Gen(c03_edges, 5000, 100_000), c03),
                arm!("two", Source::Gen(c03_two_strategy, 2500, 40_000), c03_two),
                arm!("cuts", Source::List(cuts_list), c03_cuts),
            ],
        },
        Prop {
            id: "C04",
            rule: "random histories with at least one flush on sinks that accept everything or shorten/interrupt writes; after every flush the sink's content is decoded; all flush histories of short strings; non-trivial: non-empty data",
            arms: vec![
                arm!("random", Source::Gen(c04_strategy, 13_000, 250_000), c04),
                arm!("small", Source::List(small_hist_list), c02_small),
            ],
        },
        Prop {
            id: "C05",
            rule: "2-4 random histories on one encoder separated by resets, later data often repeating earlier data; each compared byte for byte with a new encoder; non-trivial: data before and after a reset",
            arms: vec![
                arm!("random", Source::Gen(c05_strategy, 5000, 120_000), c05),
                arm!("faults", Source::Gen(c05_faults, 2000, 50_000), c05),
                arm!("stale", Source::Gen(c05_stale, 2500, 50_000), c05),
            ],
        },
        Prop {
            id: "C06",
            rule: "random histories on zlib/gzip encoders with random header fields, accessor checked after every call, body compared with the raw encoder; streams longer than 4 GiB; non-trivial: non-empty data",
            arms: vec![
                arm!("long", Source::List(c06_long_list), c06_long),
                arm!("random", Source::Gen(c06_strategy, 6000, 130_000), c06),
                arm!("faults", Source::Gen(c06_faults, 3000, 60_000), c06),
            ],
        },
    ]
}
