//! C09, C10, C11, C13: size bounds, block encoding, options, match finding.

use crate::arm;
use crate::core::*;
use crate::gen::*;
use crate::inflate::*;
use crate::lossless::*;
use crate::reference::*;
use crate::runner::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

fn stream(h: &Hist, data: &[u8], steps: &[Step]) -> Result<Vec<u8>, String> {
    let sink = Sink::all();
    guard("stream", || h.run(h.fmt, data, steps, h.end, &sink))??;
    Ok(sink.take_out())
}

// ------------------------------------------------------------------ C09

fn c09(c: &Hist) -> Res {
    let data = expand(&c.data, CAP);
    let steps = plan(&c.ops, data.len());
    let out = stream(c, &data, &steps)?;
    let flushes = steps.iter().filter(|s| **s == Step::Flush).count();
    let wrapper = match c.fmt {
        Fmt::Raw => 0,
        Fmt::Zlib => 6,
        Fmt::Gzip => c.gz.builder().into_header().len() + 8,
    };
    let bound = data.len() + 5 * ((data.len() + 31_743) / 31_744) + 10 * flushes + wrapper + 16;
    if out.len() > bound {
        return Err(format!("{} bytes ({} flushes) became {}, more than {}", data.len(), flushes, out.len(), bound));
    }
    let d = lossless(c.fmt, &out, &data)?;
    let stored = d.inf.blocks.iter().any(|b| b.kind == Kind::Stored && b.out_end > b.out_start);
    let mut o = Obs::one(stored || out.len() + 20 > data.len());
    hist_classes(&mut o, &steps);
    block_classes(&mut o, &d.inf);
    o.class(c.opts.class());
    o.class_if(bound - out.len() < 24, "within 24 bytes of the bound");
    o.note = format!("{} -> {} bytes, bound {}", data.len(), out.len(), bound);
    Ok(o)
}

fn c09_strategy() -> BoxedStrategy<Hist> {
    // Noise with few, mostly useless matches.
    let noise = || {
        let s = any::<u32>();
        prop_oneof![
            4 => (s, size(150_000), prop_oneof![3 => 190u16..=256, 1 => 100u16..=256]).prop_map(|(seed, len, alpha)| Seg::Rand { seed, len, alpha, base: 0, stride: 1 }),
            3 => (s, size(150_000)).prop_map(|(seed, len)| Seg::Uniq { seed, len }),
            4 => (s, size(150_000), 0u16..40, 3u16..=5, 3u16..=9, dist(), dist())
                .prop_map(|(seed, len, every, a, b, c, d)| Seg::Sparse { seed, len, every, mlen: (a, b), dist: (c, d) }),
            2 => freq_seg(),
            1 => (s, 0u8..8, -8i16..=8, 0u8..2).prop_map(|(seed, unit, delta, kind)| Seg::FillTo { seed, unit, delta, kind }),
            1 => seg(100_000),
        ]
    };
    (
        fmt(),
        opts(),
        gzrec(),
        prop_oneof![4 => vec(noise(), 1..5), 1 => full_block(), 1 => boundary_match(), 1 => data(150_000)],
        prop_oneof![3 => ops(3), 1 => ops(0)],
        end(),
    )
        .prop_map(|(fmt, opts, gz, data, ops, end)| Hist { fmt, opts, gz, data, ops, end, pre: vec![] })
        .boxed()
}

/// Many short blocks of incompressible data, each ended by a flush.
fn c09_pulses() -> BoxedStrategy<Hist> {
    let noise = || {
        let s = any::<u32>;
        prop_oneof![
            4 => (s(), 30u32..30_000, prop_oneof![Just(144u8), 100u8..=200], 20u16..=256).prop_map(|(seed, len, base, alpha)| Seg::Rand { seed, len, alpha: alpha.min(256 - u16::from(base)), base, stride: 1 }),
            2 => (s(), 30u32..30_000, 20u16..=256).prop_map(|(seed, len, alpha)| Seg::Rand { seed, len, alpha, base: 0, stride: 1 }),
            2 => (s(), 30u32..30_000).prop_map(|(seed, len)| Seg::Uniq { seed, len }),
        ]
    };
    let pulse = || (5u16..80, prop_oneof![2 => 1u16..40, 4 => 40u16..250, 1 => 200u16..3000], any::<bool>())
        .prop_map(|(n, step, empty)| Op::Pulse { n, step, empty });
    (fmt(), opts(), gzrec(), vec(noise(), 1..4), vec(pulse(), 1..5), end())
        .prop_map(|(fmt, opts, gz, data, ops, end)| Hist { fmt, opts, gz, data, ops, end, pre: vec![] })
        .boxed()
}

// ------------------------------------------------------------------ C10

fn body_bits(ll: &[u8], d: &[u8], b: &Block) -> u64 {
    let z = |v: &[u8], i: usize| u64::from(v.get(i).copied().unwrap_or(0));
    let mut n = 0;
    for (i, &f) in b.ll_freq.iter().enumerate() {
        n += u64::from(f) * (z(ll, i) + if i > 256 { u64::from(LEXT[(i - 257).min(28)]) } else { 0 });
    }
    for (i, &f) in b.d_freq.iter().enumerate() {
        n += u64::from(f) * (z(d, i) + u64::from(DEXT[i.min(29)]));
    }
    n
}

fn extra_bits(b: &Block) -> u64 {
    body_bits(&[], &[], b)
}

/// Bits for storing n bytes from a bit position.
fn stored_bits(start: u64, n: u64) -> u64 {
    let pad = (8 - (start + 3) % 8) % 8;
    3 + pad + 32 + 8 * n + (n.max(1) - 1) / 32_767 * 40
}

/// A block the reference builds for the same symbols.
fn reference_bits(ll: &[u32], d: &[u32]) -> (u64, u64) {
    let l = limited_lengths(ll, 15);
    let dl = limited_lengths(d, 15);
    let cost = |f: &[u32], l: &[u8]| -> u64 { f.iter().zip(l).map(|(&f, &l)| u64::from(f) * u64::from(l)).sum() };
    let (h, slack) = header_bits(&l, &dl);
    (h + cost(ll, &l) + cost(d, &dl), slack)
}

fn c10_code(what: &str, freq: &[u32], len: &[u8], limit: usize, o: &mut Obs) -> Result<(), String> {
    let used: u64 = freq.iter().enumerate().map(|(i, &f)| u64::from(f) * u64::from(len.get(i).copied().unwrap_or(0))).sum();
    let (best, depth) = huffman(freq);
    if depth <= limit {
        if used != best {
            return Err(format!("{} code takes {} bits, an optimal one {} (longest code {})", what, used, best, depth));
        }
    } else {
        o.class(format!("{} code length-limited", what));
        let lim = limited(freq, limit);
        let n = freq.iter().filter(|&&f| f > 0).count() as u64;
        if used < lim {
            return Err(format!("reference error: {} code {} < {}", what, used, lim));
        }
        if used - lim > limit_slack(lim, n, limit) {
            return Err(format!("length-limited {} code takes {} bits, an optimal one {}", what, used, lim));
        }
        o.class_if(used > lim, "length-limited, not optimal");
    }
    Ok(())
}

/// Optimal codes of the same cost may have other lengths.
const HEAD_SLACK: u64 = 12;

/// Verify the choices made for all blocks of a raw stream.
pub fn c10_blocks(inf: &Inflater, out_data: &[u8], literal_only: bool, o: &mut Obs) -> Result<(), String> {
    let fl = fixed_ll();
    let fd = [5u8; 30];
    let n = inf.blocks.len();
    let mut i = 0;
    while i < n {
        let b = &inf.blocks[i];
        let err = |m: String| Err(format!("{:?} block {} (output {}..{}): {}", b.kind, i, b.out_start, b.out_end, m));
        let bytes = (b.out_end - b.out_start) as u64;
        let bits = b.bit_end - b.bit_start;
        match b.kind {
            Kind::Stored => {
                if bytes > 0 {
                    o.class("stored block checked");
                    let data = &out_data[b.out_start..b.out_end];
                    // Only literals are known: enough where the encoder does not match at all.
                    let mut f = vec![0u32; 257];
                    for &x in data {
                        f[usize::from(x)] += 1;
                    }
                    f[256] = 1;
                    let (r, slack) = reference_bits(&f, &[]);
                    // A chunk following another one of the same block is not a decision of its own.
                    let whole = bytes < 32_767 && !(i > 0 && inf.blocks[i - 1].kind == Kind::Stored && inf.blocks[i - 1].out_end - inf.blocks[i - 1].out_start == 32_767);
                    if whole && literal_only && bytes > 4 && r + r / 100 + 64 + slack < bits {
                        return err(format!("{} bits, a dynamic block takes {}", bits, r));
                    }
                    if whole && literal_only && bytes > 4 {
                        let fx: u64 = 3 + f.iter().enumerate().map(|(i, &c)| u64::from(c) * u64::from(fl[i])).sum::<u64>();
                        if fx < bits {
                            return err(format!("{} bits, a fixed block takes {}", bits, fx));
                        }
                    }
                    if bytes > 500 && r * 2 < bits {
                        return err(format!("{} bits, a dynamic block of literals takes {}", bits, r));
                    }
                }
            }
            Kind::Fixed | Kind::Dynamic => {
                if bytes == 0 {
                    // The end of the stream, or of the data before a flush.
                    if bits > 10 {
                        return err(format!("{} bits for an empty block", bits));
                    }
                    i += 1;
                    continue;
                }
                let st = stored_bits(b.bit_start, bytes);
                if bits > st {
                    return err(format!("{} bits, storing takes {}", bits, st));
                }
                let fx = 3 + body_bits(&fl, &fd, b);
                if bits > fx {
                    return err(format!("{} bits, a fixed block takes {}", bits, fx));
                }
                let (rf, slack) = reference_bits(&b.ll_freq, &b.d_freq);
                let rf = rf + extra_bits(b);
                if bits > rf + rf / 80 + 48 + slack {
                    return err(format!("{} bits, a reference dynamic block takes {}", bits, rf));
                }
                o.class(if b.kind == Kind::Fixed { "fixed block checked" } else { "dynamic block checked" });
                o.class_if(b.kind == Kind::Fixed && rf > fx && rf < fx + 40, "close call fixed/dynamic");
                o.class_if(b.kind == Kind::Dynamic && st < bits + 2000, "close call dynamic/stored");
                if b.kind == Kind::Dynamic {
                    c10_code("literal/length", &b.ll_freq, &b.ll_len, 15, o).or_else(err)?;
                    c10_code("distance", &b.d_freq, &b.d_len, 15, o).or_else(err)?;
                    c10_code("code length", &b.cl_freq, &b.cl_len, 7, o).or_else(err)?;
                    o.class_if(b.d_freq.iter().all(|&x| x == 0), "no distances");
                    o.class_if(b.d_freq.iter().filter(|&&x| x > 0).count() == 1, "one distance");
                    if b.ll_len.len() > 257 && b.ll_len.last() == Some(&0) {
                        return err("literal/length code lengths end with unused entries".into());
                    }
                    if b.d_len.len() > 1 && b.d_len.last() == Some(&0) {
                        return err("distance code lengths end with unused entries".into());
                    }
                    let order = [16usize, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
                    if b.n_hclen > 4 && b.cl_len[order[b.n_hclen - 1]] == 0 {
                        return err("code lengths of the code length code end with unused entries".into());
                    }
                    let h = b.body_start - b.bit_start;
                    let (hr, slack) = header_bits(&b.ll_len, &b.d_len);
                    if h > hr + HEAD_SLACK + slack {
                        return err(format!("{} bits of code description, {} for a plain one", h, hr));
                    }
                    o.class_if(h > hr, "description longer than the plain one");
                    o.class_if(h < hr, "description shorter than the plain one");
                }
            }
        }
        i += 1;
    }
    Ok(())
}

fn c10(c: &Hist) -> Res {
    let data = expand(&c.data, CAP);
    let steps = plan(&c.ops, data.len());
    let mut h = c.clone();
    h.fmt = Fmt::Raw;
    let out = stream(&h, &data, &steps)?;
    let d = lossless(Fmt::Raw, &out, &data)?;
    let mut o = Obs::one(d.inf.blocks.iter().any(|b| b.out_end - b.out_start > 4));
    c10_blocks(&d.inf, &data, c.opts.class() == "huffman_only", &mut o)?;
    o.classes.sort();
    o.classes.dedup();
    o.class(c.opts.class());
    o.note = format!("{} bytes, {} blocks", data.len(), d.inf.blocks.len());
    Ok(o)
}

fn raw_hist(opts: BoxedStrategy<Opts>, data: BoxedStrategy<Vec<Seg>>, ops: BoxedStrategy<Vec<Op>>) -> BoxedStrategy<Hist> {
    (opts, data, ops)
        .prop_map(|(opts, data, ops)| Hist { fmt: Fmt::Raw, opts, gz: GzRec::default(), data, ops, end: End::Finish, pre: vec![] })
        .boxed()
}

fn c10_freq() -> BoxedStrategy<Hist> {
    raw_hist(
        prop_oneof![5 => Just(Opts::Preset(3)), 1 => Just(Opts::Preset(4)), 1 => opts()].boxed(),
        prop_oneof![6 => freq_seg().prop_map(|s| vec![s]), 1 => vec(freq_seg(), 1..4)].boxed(),
        prop_oneof![5 => Just(vec![]), 1 => vec(prop_oneof![(1u32..9000).prop_map(Op::Write), Just(Op::Flush)], 1..6)].boxed(),
    )
}

fn c10_dist() -> BoxedStrategy<Hist> {
    raw_hist(
        prop_oneof![3 => Just(Opts::Preset(0)), 3 => Just(Opts::Preset(2)), 1 => opts()].boxed(),
        (any::<u32>(), 0u32..33_000, dist_seg(), any::<bool>(), freq_seg())
            .prop_map(|(seed, len, d, tail, f)| {
                let mut v = vec![Seg::Uniq { seed, len }, d];
                if tail {
                    v.push(f);
                }
                v
            })
            .boxed(),
        // The unmatchable data goes into a block of its own.
        (0u32..33_000, any::<bool>()).prop_map(|(n, f)| if f { vec![Op::Write(n), Op::Flush] } else { vec![] }).boxed(),
    )
}

/// Short inputs near the break-even points of the block types.
fn c10_short() -> BoxedStrategy<Hist> {
    let s = any::<u32>();
    let small = prop_oneof![
        3 => (s, 0u32..200, 1u16..=256, any::<u8>(), any::<u8>()).prop_map(|(seed, len, alpha, base, stride)| Seg::Rand { seed, len, alpha, base, stride }),
        2 => (s, counts(1..40, 400), any::<u8>(), any::<u8>()).prop_map(|(seed, counts, base, stride)| Seg::Freq { seed, counts, base, stride: stride | 1 }),
        1 => seg(600),
        1 => (s, 100u32..4000, 100u16..=256).prop_map(|(seed, len, alpha)| Seg::Rand { seed, len, alpha, base: 0, stride: 1 }),
    ];
    raw_hist(opts(), vec(small, 1..4).boxed(), prop_oneof![1 => ops(2), 1 => Just(vec![])].boxed())
}

// ------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C11 {
    pub data: Vec<Seg>,
    pub ops: Vec<Op>,
    pub kind: u8,
    pub checks: u16,
    pub a: u16,
    pub b: u16,
    pub special: (u8, u8),
    pub fmt: Fmt,
}

fn rle_complete(inf: &Inflater, data: &[u8], limits: &[usize]) -> Result<usize, String> {
    let mut mi = 0;
    let mut runs = 0;
    for b in &inf.blocks {
        if b.kind == Kind::Stored {
            while mi < inf.matches.len() && (inf.matches[mi].pos as usize) < b.out_end {
                mi += 1;
            }
            continue;
        }
        let mut p = b.out_start;
        while p < b.out_end {
            if mi < inf.matches.len() && inf.matches[mi].pos as usize == p {
                let m = inf.matches[mi];
                mi += 1;
                runs += 1;
                if m.dist != 1 {
                    return Err(format!("match with distance {} at {}", m.dist, p));
                }
                p += usize::from(m.len);
                continue;
            }
            if p > 0 && data[p] == data[p - 1] {
                let lim = limit_of(limits, p);
                let n = data[p..lim].iter().take(258).take_while(|&&x| x == data[p]).count();
                if n >= 3 {
                    return Err(format!("run of {} more bytes not used at {}", n, p));
                }
            }
            p += 1;
        }
    }
    Ok(runs)
}

/// End of the data visible when the position was processed: the next flush or the end.
fn limit_of(limits: &[usize], p: usize) -> usize {
    let i = limits.partition_point(|&l| l <= p);
    limits[i]
}

fn flush_limits(steps: &[Step], len: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut pos = 0;
    for s in steps {
        match *s {
            Step::Write(_, b) => pos = b,
            Step::Flush => v.push(pos),
        }
    }
    v.push(len);
    v.push(usize::MAX);
    v.dedup();
    v
}

fn c11(c: &C11) -> Res {
    let data = expand(&c.data, CAP);
    let steps = plan(&c.ops, data.len());
    let run = |opts: Opts| {
        stream(&Hist { fmt: c.fmt, opts, gz: GzRec::default(), data: vec![], ops: vec![], end: End::Finish, pre: vec![] }, &data, &steps)
    };
    let cu = |checks, lazy_below, lazy, special| Opts::Custom { checks, lazy_below, lazy, special };
    let same = |what: &str, x: Opts, y: Opts| -> Result<(), String> {
        let (a, b) = (run(x)?, run(y)?);
        if a != b {
            return Err(format!("{}: {:?} and {:?} give different output: {}", what, x, y, diff(&a, &b)));
        }
        Ok(())
    };
    let (s0, s1) = c.special;
    let mut o = Obs::one(data.len() > 3);
    match c.kind % 9 {
        0 => {
            o.class("huffman_only");
            let d = lossless(c.fmt, &run(cu(0, c.a, false, s0))?, &data)?;
            if let Some(m) = d.inf.matches.first() {
                return Err(format!("huffman_only output contains a match: {:?}", m));
            }
            same("huffman_only", Opts::Preset(3), cu(0, c.b, false, s1))?;
        }
        1 => {
            o.class("rle");
            let d = lossless(c.fmt, &run(cu(0, c.a, true, s0))?, &data)?;
            let runs = rle_complete(&d.inf, &data, &flush_limits(&steps, data.len()))?;
            o.class_if(runs > 0, "runs found");
            same("rle", Opts::Preset(4), cu(0, c.b, true, s1))?;
        }
        2 => {
            o.class("lazy_if_less_than >= 258");
            let f = |x: u16| if x < 258 { 258 + x } else { x };
            same("lazy_if_less_than", cu(c.checks, f(c.a), true, s0), cu(c.checks, f(c.b), true, s0))?;
            same("lazy_if_less_than", cu(c.checks, 258, true, s0), cu(c.checks, f(c.b), true, s0))?;
        }
        3 => {
            o.class("max_hash_checks >= 32768");
            let f = |x: u16| x | 32768;
            let lazy = c.special.0 % 2 == 0;
            same("max_hash_checks", cu(f(c.a), c.b, lazy, s1), cu(32768, c.b, lazy, s1))?;
        }
        4 => {
            o.class("lazy 0 = greedy");
            let k = c.checks.max(1);
            let (x, y) = (run(cu(k, 0, true, s0))?, run(cu(k, c.b, false, s0))?);
            let d = lossless(c.fmt, &x, &data)?;
            // Where a block fills up, what is entered into the hash chains next to its end, and in
            // which block a match found there is output, is an accident of either implementation,
            // so only the size is comparable then.
            let bl = &d.inf.blocks;
            let second = (1..bl.len()).any(|i| {
                let flush = bl[i].kind == Kind::Stored && bl[i].out_end == bl[i].out_start;
                bl[i - 1].out_end > bl[i - 1].out_start && !flush
            });
            o.class_if(second, "compared by size");
            let same = if second { x.len().abs_diff(y.len()) <= 64 + y.len() / 64 } else { x == y };
            if !same {
                return Err(format!("lazy_if_less_than 0 ({} bytes) and greedy ({} bytes) with {} checks differ: {}", x.len(), y.len(), k, diff(&x, &y)));
            }
        }
        5 => {
            o.class("greedy ignores lazy_if_less_than");
            same("greedy", cu(c.checks, c.a, false, s0), cu(c.checks, c.b, false, s0))?;
        }
        6 => {
            o.class("special ignored");
            same("special", cu(c.checks, c.a, true, s0), cu(c.checks, c.a, true, s1))?;
            same("special", cu(c.checks, c.a, false, s0), cu(c.checks, c.a, false, s1))?;
        }
        7 => {
            o.class("presets");
            for n in 0..3u8 {
                same("Compression level vs preset", Opts::Level(n), Opts::Preset(n))?;
            }
            if c.a % 2 == 0 {
                use deflate::write::*;
                use deflate::Compression;
                use std::io::Write;
                let level = [Compression::Fast, Compression::Default, Compression::Best][c.b as usize % 3];
                let x = guard("encoder", || {
                    let r: Result<Vec<u8>, std::io::Error> = (|| match c.fmt {
                        Fmt::Raw => {
                            let mut e = DeflateEncoder::new(vec![], level);
                            e.write_all(&data)?;
                            e.finish()
                        }
                        Fmt::Zlib => {
                            let mut e = ZlibEncoder::new(vec![], level);
                            e.write_all(&data)?;
                            e.finish()
                        }
                        Fmt::Gzip => {
                            let mut e = GzEncoder::new(vec![], level);
                            e.write_all(&data)?;
                            e.finish()
                        }
                    })();
                    r
                })?
                .map_err(|e| e.to_string())?;
                let y = guard("one-shot", || match c.fmt {
                    Fmt::Raw => deflate::deflate_bytes_conf(&data, level),
                    Fmt::Zlib => deflate::deflate_bytes_zlib_conf(&data, level),
                    Fmt::Gzip => deflate::deflate_bytes_gzip_conf(&data, level, gzip_header::GzBuilder::new()),
                })?;
                let z = call_one_shot(c.fmt, Some(Opts::Preset(c.b as u8 % 3)), &GzRec::default(), &data);
                let z = if c.b as u8 % 3 == (c.b % 3) as u8 { z } else { call_one_shot(c.fmt, Some(Opts::Preset((c.b % 3) as u8)), &GzRec::default(), &data) };
                if x != y || y != z {
                    return Err(format!("{:?} given to an encoder, to a function and as preset: {} / {}", level, diff(&x, &y), diff(&y, &z)));
                }
            }
        }
        _ => {
            o.class("no options = default");
            let a = guard("one-shot", || call_one_shot(c.fmt, None, &GzRec::default(), &data))?;
            for d in [Opts::Level(1), Opts::Preset(1)] {
                let b = guard("one-shot", || call_one_shot(c.fmt, Some(d), &GzRec::default(), &data))?;
                if a != b {
                    return Err(format!("default function and {:?} differ: {}", d, diff(&a, &b)));
                }
            }
        }
    }
    o.class_if(data.len() > 32768, "more than a window");
    o.class_if(steps.contains(&Step::Flush), "flush");
    Ok(o)
}

fn c11_strategy() -> BoxedStrategy<C11> {
    (
        prop_oneof![5 => data(150_000), 1 => runs_data()],
        prop_oneof![2 => Just(vec![]), 1 => ops(1)],
        0u8..9,
        checks(),
        lazy_below(),
        lazy_below(),
        (0u8..3, 0u8..3),
        fmt(),
    )
        .prop_map(|(data, ops, kind, checks, a, b, special, fmt)| C11 { data, ops, kind, checks, a, b, special, fmt })
        .boxed()
}

fn runs_data() -> BoxedStrategy<Vec<Seg>> {
    let s = any::<u32>();
    vec(
        prop_oneof![
            3 => (s, size(100_000), 1u16..700, 1u8..6).prop_map(|(seed, len, max, alpha)| Seg::Runs { seed, len, max, alpha }),
            2 => (any::<u8>(), size(100_000)).prop_map(|(b, len)| Seg::Run { b, len }),
            1 => (s, size(40_000), 2u16..40).prop_map(|(seed, len, alpha)| Seg::Rand { seed, len, alpha, base: 0, stride: 1 }),
            1 => (s, 0u8..8, -8i16..=8, 0u8..4).prop_map(|(seed, unit, delta, kind)| Seg::FillTo { seed, unit, delta, kind }),
        ],
        1..8,
    )
    .boxed()
}

/// Runs of all lengths at all alignments to window and buffer boundaries, for rle.
fn c11_rle() -> BoxedStrategy<C11> {
    (runs_data(), prop_oneof![2 => Just(vec![]), 2 => ops(3)], any::<u16>(), any::<u16>(), (0u8..3, 0u8..3), fmt())
        .prop_map(|(data, ops, a, b, special, fmt)| C11 { data, ops, kind: 1, checks: 0, a, b, special, fmt })
        .boxed()
}

/// Data with long hash chains, where limits on the checks matter.
fn c11_chains() -> BoxedStrategy<C11> {
    (
        vec(prop_oneof![
            3 => (any::<u32>(), 30_000u32..80_000, 2u16..400, 1u8..3).prop_map(|(seed, len, max, alpha)| Seg::Runs { seed, len, max, alpha }),
            1 => (any::<u32>(), 30_000u32..80_000, 2u16..4).prop_map(|(seed, len, alpha)| Seg::Rand { seed, len, alpha, base: 0, stride: 1 }),
            1 => (dist(), 40u32..300).prop_map(|(dist, len)| Seg::Copy { dist, len }),
        ], 1..5),
        any::<u16>(),
        prop_oneof![2 => Just(258u16), 2 => 30u16..300, 1 => Just(0u16)],
        any::<bool>(),
    )
        .prop_map(|(data, a, b, lazy)| C11 { data, ops: vec![], kind: 3, checks: 0, a, b, special: (if lazy { 0 } else { 1 }, 0), fmt: Fmt::Raw })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Presets {}

fn c11_presets(_: &Presets) -> Res {
    use deflate::{Compression, CompressionOptions};
    let eq = |what: &str, a: CompressionOptions, b: CompressionOptions| if a == b { Ok(()) } else { Err(format!("{}: {:?} != {:?}", what, a, b)) };
    eq("Fast", CompressionOptions::from(Compression::Fast), CompressionOptions::fast())?;
    eq("Default", CompressionOptions::from(Compression::Default), CompressionOptions::default())?;
    eq("Best", CompressionOptions::from(Compression::Best), CompressionOptions::high())?;
    if Compression::default() != Compression::Default {
        return Err("default Compression".into());
    }
    for (n, o) in [(Opts::Preset(3), "huffman_only"), (Opts::Preset(4), "rle")] {
        if n.class() != o {
            return Err(format!("{} is {:?}", o, n.get()));
        }
    }
    let mut o = Obs::one(true);
    o.class("option values");
    Ok(o)
}

// ------------------------------------------------------------------ C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C13 {
    pub h: Hist,
}

const FAR: usize = 8 * 1024;
/// Positions around a block start or flush which are not relied on.
const EDGE: usize = 4;
const STEPS: u64 = 25_000_000;

/// Positions next to block starts and flushes, which may not be in the hash chains.
fn weak_positions(inf: &Inflater, limits: &[usize], len: usize) -> Vec<bool> {
    let mut weak = vec![false; len + 1];
    let mut mark = |p: usize| {
        for x in weak[p.saturating_sub(EDGE).min(len)..(p + EDGE + 1).min(len + 1)].iter_mut() {
            *x = true;
        }
    };
    // The very first block is no problem.
    for b in inf.blocks.iter().filter(|b| b.out_start > 0) {
        mark(b.out_start);
    }
    for &l in limits {
        if l <= len {
            mark(l);
        }
    }
    weak
}

fn c13(c: &C13) -> Res {
    let h = &c.h;
    let data = expand(&h.data, 150_000);
    let steps = plan(&h.ops, data.len());
    let out = stream(h, &data, &steps)?;
    let d = lossless(h.fmt, &out, &data)?;
    let inf = &d.inf;
    let opt = h.opts.get();
    let lazy = opt.matching_type == deflate::MatchingType::Lazy;
    let lazy_below = usize::from(opt.lazy_if_less_than.min(258));
    let checks = usize::from(opt.max_hash_checks.min(32_768));
    // When there is a match of 32 bytes already, the next position is searched less.
    let sure = |before: usize| if lazy && before >= 32 { checks / 4 } else { checks };
    let limits = flush_limits(&steps, data.len());
    let mut o = Obs::one(false);

    // Maximality holds for any options which match at all.
    for m in &inf.matches {
        let (p, l, dist) = (m.pos as usize, usize::from(m.len), usize::from(m.dist));
        let e = p + l;
        if l < 258 && e < limit_of(&limits, p) && data[e] == data[e - dist] {
            return Err(format!("match {:?} could be longer", m));
        }
    }
    let weak = weak_positions(inf, &limits, data.len());
    // A nearer source would do as well.
    let mut f = Finder::new(&data, weak.clone());
    let mut ranked = 0u64;
    for m in &inf.matches {
        let (p, l, dist) = (m.pos as usize, usize::from(m.len), usize::from(m.dist));
        if f.steps > STEPS / 2 {
            break;
        }
        if !weak[p] {
            if let (Some(n), _) = f.nearer(p, dist, l) {
                return Err(format!("{:?} used although there is the same {} back", m, n));
            }
            ranked += 1;
        }
    }
    let mut searched = 0u64;
    let mut lits = 0u64;
    let mut far_ok = 0u64;
    if checks > 0 {
        let mut mi = 0;
        'blocks: for b in &inf.blocks {
            if b.kind == Kind::Stored {
                while mi < inf.matches.len() && (inf.matches[mi].pos as usize) < b.out_end {
                    mi += 1;
                }
                continue;
            }
            let mut p = b.out_start;
            let mut prev = 258;
            while p < b.out_end {
                if f.steps > STEPS {
                    o.class("search budget used up");
                    break 'blocks;
                }
                let lim = limit_of(&limits, p);
                let mut m = None;
                if mi < inf.matches.len() && inf.matches[mi].pos as usize == p {
                    m = Some(inf.matches[mi]);
                    mi += 1;
                }
                let step = m.map_or(1, |m| usize::from(m.len));
                // The longest match there may have been at the position before.
                let before = std::mem::replace(&mut prev, if m.is_some() { 0 } else { 258 });
                if weak[p] || weak[(p + 1).min(data.len())] {
                    p += step;
                    continue;
                }
                let here = f.find(p, lim, FAR, sure(before), checks);
                let next = if lazy && p + 1 < lim { f.find(p + 1, lim, FAR, sure(here.hi), checks) } else { Found::default() };
                if m.is_none() {
                    prev = here.hi;
                }
                searched += 1;
                match m {
                    None => {
                        lits += 1;
                        if here.lo >= 3 {
                            if !lazy {
                                return Err(format!("literal at {} although there is a match of length {}", p, here.lo));
                            }
                            if here.lo >= lazy_below {
                                return Err(format!(
                                    "literal at {} although there is a match of length {}, not below lazy_if_less_than {}",
                                    p, here.lo, lazy_below
                                ));
                            }
                            if next.hi <= here.lo {
                                return Err(format!("literal at {} although there is a match of length {} and none longer at the next position", p, here.lo));
                            }
                        }
                    }
                    Some(m) => {
                        let l = usize::from(m.len);
                        far_ok += (m.dist > 32_000) as u64;
                        if l < here.lo {
                            return Err(format!("{:?} used although there is a match of length {}", m, here.lo));
                        }
                        if l == 3 && usize::from(m.dist) > FAR {
                            return Err(format!("{:?}: match of length 3 from further than 8 KiB", m));
                        }
                        if lazy && l < lazy_below && next.lo > l {
                            return Err(format!("{:?} used although the next position has a match of length {}", m, next.lo));
                        }
                    }
                }
                p += step;
            }
        }
    }
    o.nontrivial = (!inf.matches.is_empty()) as u64;
    o.class_if(searched > 0, "positions searched exhaustively");
    o.class_if(searched > 10_000, "more than 10000 positions searched");
    o.class_if(far_ok > 0, "distance above 32000 used");
    o.class_if(lits > 0, "literals searched");
    o.class_if(ranked > 0, "nearest source compared");
    o.class_if(data.len() > 32768, "more than a window");
    o.class_if(data.len() > 98304, "more than 3 windows");
    hist_classes(&mut o, &steps);
    o.class(h.opts.class());
    o.note = format!("{} bytes, {} matches, {} positions searched", data.len(), inf.matches.len(), searched);
    Ok(o)
}

fn compressible() -> BoxedStrategy<Vec<Seg>> {
    let s = any::<u32>();
    let one = move |max: u32| {
        prop_oneof![
            4 => (s, size(max), prop_oneof![2 => 2u16..12, 2 => 8u16..60]).prop_map(|(seed, len, alpha)| Seg::Rand { seed, len, alpha, base: 65, stride: 1 }),
            4 => (s, size(max), 5u16..3000).prop_map(|(seed, len, words)| Seg::Text { seed, len, words }),
            4 => (dist(), prop_oneof![2 => 3u32..600, 1 => size(max)]).prop_map(|(dist, len)| Seg::Copy { dist, len }),
            2 => (s, size(max), 1u8..24).prop_map(|(seed, len, k)| Seg::Geo { seed, len, k }),
            1 => (s, size(max), 0u16..6, 3u16..=12, 3u16..=258, dist(), dist())
                .prop_map(|(seed, len, every, a, b, c, d)| Seg::Sparse { seed, len, every, mlen: (a, b), dist: (c, d) }),
            1 => (s, 10u16..5000, size(max), 1u16..5).prop_map(|(seed, period, len, edits)| Seg::Edit { seed, period, len, edits }),
            1 => (s, size(max), 1u16..60, 2u8..6).prop_map(|(seed, len, max, alpha)| Seg::Runs { seed, len, max, alpha }),
            2 => (s, 0u8..8, prop_oneof![3 => -8i16..=8, 1 => -300i16..=300]).prop_map(|(seed, unit, delta)| Seg::FillTo { seed, unit, delta, kind: 3 }),
        ]
    };
    prop_oneof![
        2 => vec(one(3000), 1..7),
        4 => vec(one(100_000), 1..6),
        // Far repetition across windows.
        2 => (s, 8u16..40, 33_000u32..70_000, 32_400u16..=32_768, size(60_000), vec(one(30_000), 0..3)).prop_map(|(seed, alpha, len, dist, n, mut rest)| {
            rest.insert(0, Seg::Rand { seed, len, alpha, base: 65, stride: 1 });
            rest.push(Seg::Copy { dist, len: n });
            rest
        }),
        2 => window_edge(),
        1 => (s, 8u16..40, 0i16..700, vec((dist(), 3u32..300, 1u8..8), 1..60)).prop_map(|(seed, alpha, delta, v)| {
            // Copies at exact distances, each ended by a byte outside the alphabet.
            let mut x = vec![Seg::Rand { seed, len: 33_000, alpha, base: 65, stride: 1 }, Seg::FillTo { seed: seed ^ 3, unit: 0, delta: -delta, kind: 3 }];
            for (dist, len, b) in v {
                x.push(Seg::Copy { dist, len });
                x.push(Seg::Raw(vec![b]));
            }
            x
        }),
    ]
    .boxed()
}

fn c13_strategy() -> BoxedStrategy<C13> {
    let lb = || prop_oneof![3 => proptest::sample::select(vec![0u16, 3, 4, 8, 32, 128, 258]), 1 => 0u16..260];
    let exact = (prop_oneof![3 => Just(32768u16), 1 => Just(65535u16), 1 => 8192u16..32768], lb(), any::<bool>())
        .prop_map(|(checks, lazy_below, lazy)| Opts::Custom { checks, lazy_below, lazy, special: 0 });
    c13_with(prop_oneof![6 => exact, 2 => opts(), 1 => Just(Opts::Preset(1)), 1 => Just(Opts::Preset(2))].boxed())
}

/// Few checks.
fn c13_limited() -> BoxedStrategy<C13> {
    let lb = || prop_oneof![3 => proptest::sample::select(vec![0u16, 3, 4, 8, 32, 128, 258]), 1 => 0u16..260];
    let few = (prop_oneof![3 => 1u16..8, 3 => 1u16..200, 1 => 100u16..3000], lb(), any::<bool>())
        .prop_map(|(checks, lazy_below, lazy)| Opts::Custom { checks, lazy_below, lazy, special: 0 });
    c13_with(prop_oneof![6 => few, 1 => Just(Opts::Preset(0)), 1 => Just(Opts::Preset(1)), 1 => Just(Opts::Preset(2))].boxed())
}

fn c13_with(opts: BoxedStrategy<Opts>) -> BoxedStrategy<C13> {
    let h = (fmt(), opts, compressible(), prop_oneof![2 => Just(vec![]), 2 => ops(1), 1 => ops(3)], end())
        .prop_map(|(fmt, opts, data, ops, end)| Hist { fmt, opts, gz: GzRec::default(), data, ops, end, pre: vec![] })
        .boxed();
    warm(h).prop_map(|h| C13 { h }).boxed()
}

// ------------------------------------------------------------------ C15

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Processor time used by this thread, in nanoseconds.
fn cpu_ns() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // 3: CLOCK_THREAD_CPUTIME_ID
    if unsafe { clock_gettime(3, &mut t) } != 0 {
        return 0;
    }
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

fn c15_stream(c: &Hist, data: &[u8], steps: &[Step]) -> Result<(Vec<u8>, u64), String> {
    let sink = Sink::all();
    let t = guard("stream", || -> Result<u64, String> {
        let mut e = c.enc(c.fmt, &sink)?;
        #[cfg(deflate_verif)]
        deflate::verif::take();
        let t = cpu_ns();
        do_steps(&mut e, data, steps)?;
        finish(e, c.end, &sink)?;
        Ok(cpu_ns().saturating_sub(t))
    })??;
    Ok((sink.take_out(), t))
}

/// Far more processor time than compressing takes, by a factor of 20 or more.
fn time_limit(bytes: usize, calls: usize, checks: usize) -> u64 {
    60_000_000 + bytes as u64 * (1_500 + 250 * checks as u64) + calls as u64 * 200_000
}

fn c15(c: &Hist) -> Res {
    let data = expand(&c.data, CAP);
    let steps = plan(&c.ops, data.len());
    let (out, mut time) = c15_stream(c, &data, &steps)?;
    let opt = c.opts.get();
    let checks = usize::from(opt.max_hash_checks.min(32_768));
    let mut o = Obs::one(false);
    #[cfg(deflate_verif)]
    {
        let mut e = deflate::verif::take();
        if e.searches == 0 && e.checks > 0 {
            // The start of searches is not counted any more: the counters mean nothing.
            e = Default::default();
        }
        if e.searches > data.len() as u64 {
            return Err(format!("{} match searches for {} bytes", e.searches, data.len()));
        }
        // (How the last candidates are counted is left open; the ranks below are exact.)
        if e.most > checks as u64 + 2 || e.most > 0 && checks == 0 {
            return Err(format!("a match search looked at {} earlier positions, max_hash_checks is {}", e.most, opt.max_hash_checks));
        }
        if e.checks > e.searches * (checks as u64 + 2) {
            return Err(format!("{} earlier positions looked at in {} searches, max_hash_checks is {}", e.checks, e.searches, opt.max_hash_checks));
        }
        o.nontrivial = u64::from(checks > 0 && e.most == checks as u64);
        o.class_if(e.searches > 0, "searches counted");
        o.class_if(e.most == checks as u64 && checks > 0, "limit reached");
        o.class_if(e.searches == 0 && !data.is_empty(), "no searches");
        o.class_if(e.checks > 50 * data.len() as u64, "more than 50 checks per byte");
        o.note = format!("{} bytes, {:?}", data.len(), e);
    }
    let limit = time_limit(data.len(), steps.len(), checks);
    // (The instrumented build is slow.)
    if time > limit && !cfg!(guided) {
        // Once more, in case the machine was to blame.
        for _ in 0..3 {
            time = time.min(c15_stream(c, &data, &steps)?.1);
        }
        if time > limit {
            return Err(format!("{} ms of processor time for {} bytes, {} calls and max_hash_checks {} (limit {} ms)",
                time / 1_000_000, data.len(), steps.len(), opt.max_hash_checks, limit / 1_000_000));
        }
    }
    o.class_if(time * 300 > limit, "more than 1/300 of the time limit");
    let d = lossless(c.fmt, &out, &data)?;
    let limits = flush_limits(&steps, data.len());
    let weak = weak_positions(&d.inf, &limits, data.len());
    let mut f = Finder::new(&data, weak.clone());
    let mut last = false;
    for m in &d.inf.matches {
        let (p, dist) = (m.pos as usize, usize::from(m.dist));
        if f.steps > STEPS {
            break;
        }
        if checks > 0 && !weak[p] {
            let (_, rank) = f.nearer(p, dist, usize::from(m.len));
            if rank >= checks {
                return Err(format!("{:?} used although there are {} more recent sources, max_hash_checks is {}", m, rank, opt.max_hash_checks));
            }
            last |= rank + 1 == checks;
        }
    }
    o.class_if(last, "match found by the last check");
    if !cfg!(deflate_verif) {
        o.nontrivial = u64::from(last);
    }
    hist_classes(&mut o, &steps);
    o.class(c.opts.class());
    Ok(o)
}

fn c15_strategy() -> BoxedStrategy<Hist> {
    let s = any::<u32>;
    let few = || prop_oneof![3 => 0u16..12, 3 => 1u16..300, 1 => any::<u16>()];
    let o = prop_oneof![
        6 => (few(), prop_oneof![2 => 0u16..260, 1 => any::<u16>()], any::<bool>(), 0u8..3)
            .prop_map(|(checks, lazy_below, lazy, special)| Opts::Custom { checks, lazy_below, lazy, special }),
        1 => opts(),
    ];
    let slow = move || {
        prop_oneof![
            3 => (s(), size(80_000), 2u16..6).prop_map(|(seed, len, alpha)| Seg::Rand { seed, len, alpha, base: 0, stride: 1 }),
            2 => (s(), size(80_000), 2u16..400, 1u8..4).prop_map(|(seed, len, max, alpha)| Seg::Runs { seed, len, max, alpha }),
            2 => (s(), 2u16..600, size(80_000), 1u16..6).prop_map(|(seed, period, len, edits)| Seg::Edit { seed, period, len, edits }),
            2 => (s(), 1u16..600, size(80_000)).prop_map(|(seed, period, len)| Seg::Period { seed, period, len }),
            1 => (any::<u8>(), size(80_000)).prop_map(|(b, len)| Seg::Run { b, len }),
            2 => (s(), size(80_000), 5u16..300).prop_map(|(seed, len, words)| Seg::Text { seed, len, words }),
            2 => (dist(), prop_oneof![2 => 3u32..600, 1 => size(80_000)]).prop_map(|(dist, len)| Seg::Copy { dist, len }),
            1 => (s(), size(30_000), 0u16..6, 3u16..=12, 3u16..=258, dist(), dist())
                .prop_map(|(seed, len, every, a, b, c, d)| Seg::Sparse { seed, len, every, mlen: (a, b), dist: (c, d) }),
            1 => (s(), 0u8..8, -8i16..=8, 0u8..4).prop_map(|(seed, unit, delta, kind)| Seg::FillTo { seed, unit, delta, kind }),
        ]
    };
    (fmt(), o, prop_oneof![5 => vec(slow(), 1..6), 1 => data(100_000)], prop_oneof![2 => Just(vec![]), 2 => ops(1), 1 => ops(3)], end())
        .prop_map(|(fmt, opts, data, ops, end)| Hist { fmt, opts, gz: GzRec::default(), data, ops, end, pre: vec![] })
        .boxed()
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            rule: "noise with few or useless matches, skewed frequencies, fills to block boundaries, with random flush histories; non-trivial: a stored block is used or the output is within 20 bytes of the input",
            arms: vec![
                arm!("random", Source::Gen(|| warm(c09_strategy()), 11_000, 200_000), c09),
                arm!("pulses", Source::Gen(|| warm(c09_pulses()), 8_000, 150_000), c09),
            ],
        },
        Prop {
            id: "C10",
            rule: "byte and distance frequency tables of many shapes (equal, powers, Fibonacci-like, sparse, single), short inputs, general data; every block decoded and compared with reference encodings; non-trivial: a block of more than 4 bytes",
            arms: vec![
                arm!("freq", Source::Gen(c10_freq, 40_000, 300_000), c10),
                arm!("dist", Source::Gen(c10_dist, 10_000, 60_000), c10),
                arm!("short", Source::Gen(c10_short, 50_000, 300_000), c10),
                arm!("general", Source::Gen(|| warm(hist(150_000, 1)), 10_000, 80_000), c10),
            ],
        },
        Prop {
            id: "C11",
            rule: "pairs of option values documented to be equivalent run on the same random data and history, rle/huffman_only output inspected; non-trivial: more than 3 bytes of data",
            arms: vec![
                arm!("random", Source::Gen(c11_strategy, 12_000, 250_000), c11),
                arm!("rle", Source::Gen(c11_rle, 4000, 80_000), c11),
                arm!("chains", Source::Gen(c11_chains, 400, 8000), c11),
                arm!("presets", Source::List(|_| vec![Presets {}]), c11_presets),
            ],
        },
        Prop {
            id: "C13",
            rule: "compressible data with copies at all distances, writes and flushes, mostly with exhaustive hash checks; every token compared with an exhaustive search; non-trivial: a match was emitted",
            arms: vec![
                arm!("random", Source::Gen(c13_strategy, 9000, 180_000), c13),
                arm!("limited", Source::Gen(c13_limited, 8000, 160_000), c13),
            ],
        },
        Prop {
            id: "C15",
            rule: "repetitive data with long hash chains, all values of max_hash_checks, writes and flushes; searches and looks at earlier positions counted by a hook, sources of all matches ranked; non-trivial: a search uses up max_hash_checks",
            arms: vec![
                arm!("random", Source::Gen(|| warm(c15_strategy()), 8000, 150_000), c15),
            ],
        },
    ]
}
