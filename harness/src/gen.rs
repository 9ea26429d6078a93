//! Recipes: small, serialisable, shrinkable descriptions of inputs, options, call histories and
//! sink behaviour, and the proptest strategies that generate them. Expanding a recipe is a pure
//! function of the recipe.

use crate::inflate::Fmt;
use deflate::{Compression, CompressionOptions, MatchingType, SpecialOptions};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Union};
use serde::{Deserialize, Serialize};

pub fn arb<T: Clone + std::fmt::Debug + 'static>(v: Vec<(u32, BoxedStrategy<T>)>) -> BoxedStrategy<T> {
    Union::new_weighted(v).boxed()
}

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((u128::from(self.next()) * n as u128) >> 64) as usize
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
}

/// Position marks that matter to window, buffer and block handling.
pub const UNITS: [usize; 8] = [32768, 65536, 65794, 31744, 32767, 258, 98304, 63488];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Seg {
    Raw(Vec<u8>),
    /// Uniform over `alpha` byte values, base + i * stride.
    Rand { seed: u32, len: u32, alpha: u16, base: u8, stride: u8 },
    /// The same byte.
    Run { b: u8, len: u32 },
    /// Copy of earlier data.
    Copy { dist: u16, len: u32 },
    /// Bytes without any repeated 3-byte sequence within reach (nothing to match).
    Uniq { seed: u32, len: u32 },
    /// Words of a Zipf-distributed random dictionary.
    Text { seed: u32, len: u32, words: u16 },
    /// Byte frequencies following the Fibonacci numbers (deep Huffman trees), shuffled.
    Fib { seed: u32, len: u32, n: u8, base: u8 },
    /// Geometrically distributed bytes, p = 1/2^(k/8).
    Geo { seed: u32, len: u32, k: u8 },
    /// Noise interspersed with matches of given lengths and distances.
    Sparse { seed: u32, len: u32, every: u16, mlen: (u16, u16), dist: (u16, u16) },
    /// `count` copies with lengths/distances stepping through their ranges, separated by noise.
    Sweep { seed: u32, count: u16, len0: u16, lstep: u16, dist0: u16, dstep: u16 },
    /// Repetition of a random period.
    Period { seed: u32, period: u16, len: u32 },
    /// Runs of random lengths of few byte values.
    Runs { seed: u32, len: u32, max: u16, alpha: u8 },
    /// Fill with noise (0), trigram-unique noise (1), a run (2) or text (3) up to the next multiple
    /// of UNITS[unit], plus delta.
    FillTo { seed: u32, unit: u8, delta: i16, kind: u8 },
    /// Given counts of consecutive byte values (from `base`, `stride` apart), shuffled.
    Freq { seed: u32, counts: Vec<u16>, base: u8, stride: u8 },
    /// Matches of length 4 with given counts of distance codes, shuffled.
    DistFreq { seed: u32, counts: Vec<u16>, len: u16 },
    /// Few bytes of text/noise repeated with single byte edits.
    Edit { seed: u32, period: u16, len: u32, edits: u16 },
}

/// A bit set over all trigrams.
struct Tri(Vec<u64>);
impl Tri {
    fn get(&self, i: usize) -> bool {
        self.0[i >> 6] >> (i & 63) & 1 != 0
    }
    fn set(&mut self, i: usize) {
        self.0[i >> 6] |= 1 << (i & 63)
    }
    fn clear(&mut self, i: usize) {
        self.0[i >> 6] &= !(1 << (i & 63))
    }
}

fn tri_at(v: &[u8], i: usize) -> usize {
    usize::from(v[i]) << 16 | usize::from(v[i + 1]) << 8 | usize::from(v[i + 2])
}

fn uniq(out: &mut Vec<u8>, seed: u32, len: usize) {
    let mut r = Rng(u64::from(seed) ^ 0x5151);
    thread_local! {
        static TRI: std::cell::RefCell<Tri> = std::cell::RefCell::new(Tri(vec![0; 1 << 18]));
    }
    TRI.with(|t| {
        let mut t = t.borrow_mut();
        // Avoid everything in the last 33000 bytes, and everything generated here.
        let from = out.len().saturating_sub(33_000);
        let mut touched: Vec<usize> = vec![];
        if out.len() >= 3 {
            for i in from..out.len() - 2 {
                let k = tri_at(out, i);
                t.set(k);
                touched.push(k);
            }
        }
        for n in 0..len {
            let l = out.len();
            if l < 2 {
                out.push(r.byte());
                continue;
            }
            let base = usize::from(out[l - 2]) << 16 | usize::from(out[l - 1]) << 8;
            let mut b = usize::from(r.byte());
            for _ in 0..256 {
                if !t.get(base | b) {
                    break;
                }
                b = (b + 1) & 255;
            }
            t.set(base | b);
            touched.push(base | b);
            out.push(b as u8);
            // A sliding reset keeps long segments possible.
            if n % 1_000_000 == 999_999 {
                for k in touched.drain(..) {
                    t.clear(k);
                }
            }
        }
        for k in touched {
            t.clear(k);
        }
    })
}

fn text(out: &mut Vec<u8>, seed: u32, len: usize, words: usize) {
    let mut r = Rng(u64::from(seed) ^ 0x7e87);
    let words = words.max(1);
    let dict: Vec<Vec<u8>> = (0..words)
        .map(|_| {
            let n = 1 + r.below(11);
            (0..n)
                .map(|_| b"etaoinshrdlucmfwypvbgkqjxz"[r.below(26).min(r.below(26))])
                .collect()
        })
        .collect();
    let end = out.len() + len;
    while out.len() < end {
        // Roughly Zipf: product of two uniforms.
        let i = r.below(words) * r.below(words) / words;
        out.extend_from_slice(&dict[i]);
        out.push(if r.below(12) == 0 { b'\n' } else { b' ' });
    }
    out.truncate(end);
}

impl Seg {
    pub fn expand(&self, out: &mut Vec<u8>, cap: usize) {
        let room = cap.saturating_sub(out.len());
        if room == 0 {
            return;
        }
        let start = out.len();
        let lim = |l: u32| (l as usize).min(room);
        match *self {
            Seg::Raw(ref v) => out.extend_from_slice(v),
            Seg::Rand { seed, len, alpha, base, stride } => {
                let mut r = Rng(u64::from(seed));
                let a = usize::from(alpha.clamp(1, 256));
                for _ in 0..lim(len) {
                    out.push(base.wrapping_add((r.below(a) as u8).wrapping_mul(stride)));
                }
            }
            Seg::Run { b, len } => out.resize(start + lim(len), b),
            Seg::Copy { dist, len } => {
                let d = (usize::from(dist)).max(1);
                if start == 0 {
                    out.push(b'c');
                }
                let d = d.min(out.len());
                for _ in 0..lim(len) {
                    out.push(out[out.len() - d]);
                }
            }
            Seg::Uniq { seed, len } => uniq(out, seed, lim(len)),
            Seg::Text { seed, len, words } => text(out, seed, lim(len), usize::from(words)),
            Seg::Fib { seed, len, n, base } => {
                let n = usize::from(n).clamp(2, 40);
                let mut w = vec![1u64, 1];
                while w.len() < n {
                    w.push(w[w.len() - 1] + w[w.len() - 2]);
                }
                let total: u64 = w.iter().sum();
                let len = lim(len);
                let mut v: Vec<u8> = Vec::with_capacity(len);
                if total <= len as u64 {
                    // Exact frequencies, repeated.
                    while v.len() < len {
                        for (i, &c) in w.iter().enumerate() {
                            for _ in 0..c {
                                v.push(base.wrapping_add(i as u8 * 3));
                            }
                        }
                    }
                } else {
                    // As many of the rarest symbols as fit.
                    for (i, &c) in w.iter().enumerate() {
                        for _ in 0..c {
                            v.push(base.wrapping_add(i as u8 * 3));
                        }
                        if v.len() > len {
                            break;
                        }
                    }
                }
                v.truncate(len);
                let mut r = Rng(u64::from(seed));
                for i in (1..v.len()).rev() {
                    v.swap(i, r.below(i + 1));
                }
                out.extend_from_slice(&v);
            }
            Seg::Geo { seed, len, k } => {
                let mut r = Rng(u64::from(seed) ^ 0x6e0);
                let p = 2f64.powf(-(f64::from(k.max(1))) / 8.0);
                let thr = (p * 4294967296.0) as u64;
                for _ in 0..lim(len) {
                    let mut c = 0u8;
                    while c < 255 && (r.next() & 0xffff_ffff) < thr {
                        c += 1;
                    }
                    out.push(c);
                }
            }
            Seg::Sparse { seed, len, every, mlen, dist } => {
                let mut r = Rng(u64::from(seed) ^ 0x59a2);
                let end = start + lim(len);
                while out.len() < end {
                    let lits = r.below(usize::from(every) * 2 + 1);
                    for _ in 0..lits {
                        out.push(r.byte());
                    }
                    let l = r.range(usize::from(mlen.0.min(mlen.1)), usize::from(mlen.0.max(mlen.1)));
                    let d = r.range(usize::from(dist.0.min(dist.1)), usize::from(dist.0.max(dist.1)));
                    if d >= 1 && d <= out.len() {
                        for _ in 0..l {
                            out.push(out[out.len() - d]);
                        }
                    } else {
                        out.push(r.byte());
                    }
                }
                out.truncate(end);
            }
            Seg::Sweep { seed, count, len0, lstep, dist0, dstep } => {
                let mut r = Rng(u64::from(seed) ^ 0x53e9);
                let end = start + room;
                let mut l = usize::from(len0);
                let mut d = usize::from(dist0);
                for _ in 0..count {
                    if out.len() >= end {
                        break;
                    }
                    let dd = (d % 32768) + 1;
                    let ll = 3 + l % 256;
                    for _ in 0..1 + r.below(3) {
                        out.push(r.byte());
                    }
                    if dd <= out.len() {
                        for _ in 0..ll {
                            out.push(out[out.len() - dd]);
                        }
                    }
                    l += usize::from(lstep);
                    d += usize::from(dstep);
                }
                out.truncate(end);
            }
            Seg::Period { seed, period, len } => {
                let mut r = Rng(u64::from(seed) ^ 0x9e7);
                let p: Vec<u8> = (0..period.max(1)).map(|_| r.byte()).collect();
                for i in 0..lim(len) {
                    out.push(p[i % p.len()]);
                }
            }
            Seg::Runs { seed, len, max, alpha } => {
                let mut r = Rng(u64::from(seed) ^ 0x2c5);
                let end = start + lim(len);
                while out.len() < end {
                    let b = (r.below(usize::from(alpha.max(1))) as u8).wrapping_mul(37);
                    let n = 1 + r.below(usize::from(max.max(1)));
                    for _ in 0..n {
                        out.push(b);
                    }
                }
                out.truncate(end);
            }
            Seg::FillTo { seed, unit, delta, kind } => {
                let u = UNITS[usize::from(unit) % UNITS.len()] as i64;
                let s = start as i64;
                let mut t = (s / u + 1) * u + i64::from(delta);
                while t < s {
                    t += u;
                }
                let n = ((t - s) as usize).min(room);
                match kind % 4 {
                    0 => {
                        let mut r = Rng(u64::from(seed));
                        for _ in 0..n {
                            out.push(r.byte());
                        }
                    }
                    1 => uniq(out, seed, n),
                    2 => out.resize(start + n, seed as u8),
                    _ => text(out, seed, n, 500),
                }
            }
            Seg::Freq { seed, ref counts, base, stride } => {
                let mut r = Rng(u64::from(seed) ^ 0xf4e9);
                let mut v = vec![];
                for (i, &c) in counts.iter().enumerate() {
                    let b = base.wrapping_add((i as u8).wrapping_mul(stride));
                    v.resize(v.len() + usize::from(c), b);
                }
                for i in (1..v.len()).rev() {
                    v.swap(i, r.below(i + 1));
                }
                out.extend_from_slice(&v);
            }
            Seg::DistFreq { seed, ref counts, len } => {
                let mut r = Rng(u64::from(seed) ^ 0xd15f);
                let mut v = vec![];
                for (i, &c) in counts.iter().enumerate().take(30) {
                    v.resize(v.len() + usize::from(c), i);
                }
                for i in (1..v.len()).rev() {
                    v.swap(i, r.below(i + 1));
                }
                for c in v {
                    let d = usize::from(crate::inflate::DBASE[c]) + r.below(1 << crate::inflate::DEXT[c]);
                    if d > out.len() || out.len() >= cap {
                        continue;
                    }
                    for _ in 0..len.max(3) {
                        out.push(out[out.len() - d]);
                    }
                }
            }
            Seg::Edit { seed, period, len, edits } => {
                let mut r = Rng(u64::from(seed) ^ 0xed17);
                let mut p: Vec<u8> = (0..period.max(1)).map(|_| r.byte()).collect();
                let end = start + lim(len);
                while out.len() < end {
                    for _ in 0..edits {
                        let i = r.below(p.len());
                        p[i] = r.byte();
                    }
                    out.extend_from_slice(&p);
                }
                out.truncate(end);
            }
        }
        out.truncate(cap);
    }

    pub fn name(&self) -> &'static str {
        match self {
            Seg::Raw(_) => "raw",
            Seg::Rand { .. } => "rand",
            Seg::Run { .. } => "run",
            Seg::Copy { .. } => "copy",
            Seg::Uniq { .. } => "uniq",
            Seg::Text { .. } => "text",
            Seg::Fib { .. } => "fib",
            Seg::Geo { .. } => "geo",
            Seg::Sparse { .. } => "sparse",
            Seg::Sweep { .. } => "sweep",
            Seg::Period { .. } => "period",
            Seg::Runs { .. } => "runs",
            Seg::FillTo { .. } => "fillto",
            Seg::Edit { .. } => "edit",
            Seg::Freq { .. } => "freq",
            Seg::DistFreq { .. } => "distfreq",
        }
    }
}

pub fn expand(segs: &[Seg], cap: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for s in segs {
        s.expand(&mut v, cap);
    }
    v
}

// ---------------------------------------------------------------- sizes

pub fn size(max: u32) -> BoxedStrategy<u32> {
    let m = max.max(2);
    let c = move |a: u32, b: u32| (a.min(m)..=b.min(m)).boxed();
    arb(vec![
        (3, c(0, 12)),
        (5, c(1, 300)),
        (5, c(200, 4000)),
        (4, c(3000, 40_000)),
        (2, c(31_000, 34_000)),
        (2, c(64_000, 70_000)),
        (1, c(90_000, 140_000)),
        (1, c(1, m)),
    ])
}

fn near(v: &'static [u16], spread: u16) -> BoxedStrategy<u16> {
    (proptest::sample::select(v), 0..=spread * 2)
        .prop_map(move |(x, d)| x.saturating_add(d).saturating_sub(spread))
        .boxed()
}

pub fn dist() -> BoxedStrategy<u16> {
    arb(vec![
        (4, (1u16..=32768).boxed()),
        (3, near(&[1, 2, 3, 4, 8, 256, 257, 258, 8192, 8193, 16384, 32767, 32768], 2)
            .prop_map(|d| d.clamp(1, 32768)).boxed()),
        (3, (1u16..=300).boxed()),
        (1, (32700u16..=32768).boxed()),
        (1, (32769u16..=33100).boxed()),
    ])
}

pub fn seg(max: u32) -> BoxedStrategy<Seg> {
    let s = any::<u32>();
    arb(vec![
        (2, vec(any::<u8>(), 0..40).prop_map(Seg::Raw).boxed()),
        (1, vec(0u8..3, 0..60).prop_map(Seg::Raw).boxed()),
        (4, (s, size(max), arb(vec![(3, (1u16..=8).boxed()), (2, (2u16..=256).boxed()), (2, Just(256u16).boxed())]),
             any::<u8>(), arb(vec![(3, Just(1u8).boxed()), (2, any::<u8>().boxed())]))
            .prop_map(|(seed, len, alpha, base, stride)| Seg::Rand { seed, len, alpha, base, stride }).boxed()),
        (4, (any::<u8>(), size(max)).prop_map(|(b, len)| Seg::Run { b, len }).boxed()),
        (2, (any::<u8>(), 1u32..600).prop_map(|(b, len)| Seg::Run { b, len }).boxed()),
        (4, (dist(), size(max)).prop_map(|(dist, len)| Seg::Copy { dist, len }).boxed()),
        (5, (dist(), 3u32..600).prop_map(|(dist, len)| Seg::Copy { dist, len }).boxed()),
        (4, (s, size(max)).prop_map(|(seed, len)| Seg::Uniq { seed, len }).boxed()),
        (4, (s, size(max), 1u16..3000).prop_map(|(seed, len, words)| Seg::Text { seed, len, words }).boxed()),
        (2, (s, size(max), 2u8..30, any::<u8>()).prop_map(|(seed, len, n, base)| Seg::Fib { seed, len, n, base }).boxed()),
        (2, (s, size(max), 1u8..24).prop_map(|(seed, len, k)| Seg::Geo { seed, len, k }).boxed()),
        (5, (s, size(max), 0u16..60, arb(vec![(3, (3u16..=6).boxed()), (2, (3u16..=258).boxed()), (1, (250u16..=300).boxed())]),
             3u16..=270, dist(), dist())
            .prop_map(|(seed, len, every, a, b, c, d)| Seg::Sparse { seed, len, every, mlen: (a, b), dist: (c, d) }).boxed()),
        (3, (s, 1u16..2000, 0u16..260, 0u16..5, any::<u16>(), 0u16..600)
            .prop_map(|(seed, count, len0, lstep, dist0, dstep)| Seg::Sweep { seed, count, len0, lstep, dist0, dstep }).boxed()),
        (2, (s, 1u16..2000, size(max)).prop_map(|(seed, period, len)| Seg::Period { seed, period, len }).boxed()),
        (1, (s, 32000u16..33500, size(max)).prop_map(|(seed, period, len)| Seg::Period { seed, period, len }).boxed()),
        (3, (s, size(max), 1u16..600, 1u8..6).prop_map(|(seed, len, max, alpha)| Seg::Runs { seed, len, max, alpha }).boxed()),
        (5, (s, 0u8..8, arb(vec![(3, (-8i16..=8).boxed()), (1, (-300i16..=300).boxed())]), 0u8..4)
            .prop_map(|(seed, unit, delta, kind)| Seg::FillTo { seed, unit, delta, kind }).boxed()),
        (2, (s, 10u16..5000, size(max), 1u16..5).prop_map(|(seed, period, len, edits)| Seg::Edit { seed, period, len, edits }).boxed()),
    ])
}

/// Copies from just inside of the window, starting at the boundaries of the encoder's windows.
pub fn window_edge() -> BoxedStrategy<Vec<Seg>> {
    (any::<u32>(), 20u16..150, vec((0u8..2, -2i32..=2, prop_oneof![3 => Just(32_768u16), 2 => 32_700u16..=32_768, 1 => dist()],
                prop_oneof![2 => 3u32..12, 2 => 3u32..300], any::<bool>()), 1..4)).prop_map(|(seed, alpha, v)| {
            let mut x = vec![];
            let (mut at, mut boundary) = (0i32, 32_768i32);
            for (i, (skip, delta, dist, len, mark)) in v.into_iter().enumerate() {
                boundary += 32_768 * i32::from(skip);
                let to = boundary + delta - i32::from(mark);
                x.push(Seg::Rand { seed: seed ^ i as u32, len: (to - at).max(0) as u32, alpha, base: 65, stride: 1 });
                if mark {
                    x.push(Seg::Raw(vec![i as u8]));
                }
                x.push(Seg::Copy { dist, len });
                x.push(Seg::Raw(vec![8 + i as u8]));
                at = to.max(at) + i32::from(mark) + len as i32 + 1;
                boundary += 32_768;
            }
            x.push(Seg::Rand { seed: !seed, len: 300, alpha, base: 65, stride: 1 });
            x
        })
        .boxed()
}

/// General data recipes.
pub fn data(max: u32) -> BoxedStrategy<Vec<Seg>> {
    arb(vec![
        (2, vec(seg(300), 0..6).boxed()),
        (4, vec(seg(4000.min(max)), 1..8).boxed()),
        (5, vec(seg(max), 1..6).boxed()),
        (2, boundary_match().boxed()),
        (2, full_block().boxed()),
        (2, aligned_block().boxed()),
        (2, skew().boxed()),
        (1, window_edge()),
    ])
}

/// Frequency tables of many shapes.
pub fn counts(n: std::ops::Range<usize>, total: u32) -> BoxedStrategy<Vec<u16>> {
    let scale = move |mut v: Vec<u64>| -> Vec<u16> {
        let sum: u64 = v.iter().sum::<u64>().max(1);
        if sum > u64::from(total) {
            for x in v.iter_mut() {
                if *x > 0 {
                    *x = (*x * u64::from(total) / sum).max(1);
                }
            }
        }
        v.into_iter().map(|x| x.min(60_000) as u16).collect()
    };
    let len = n.clone();
    arb(vec![
        // all equal
        (2, (n.clone(), 1u64..200).prop_map(move |(n, c)| scale(vec![c; n])).boxed()),
        // uniform random
        (2, vec(0u64..400, n.clone()).prop_map(scale).boxed()),
        // few large, many small
        (2, vec(arb(vec![(5, (0u64..3).boxed()), (1, (0u64..3000).boxed())]), n.clone()).prop_map(scale).boxed()),
        // powers with random exponents
        (3, vec(0u32..15, n.clone()).prop_map(move |v| scale(v.into_iter().map(|e| 1u64 << e).collect())).boxed()),
        // growing like Fibonacci numbers or slower, the smallest exact
        (4, (n.clone(), 10u32..22, any::<bool>(), 0u64..3).prop_map(move |(n, g, desc, add)| {
            let mut v: Vec<u64> = vec![1];
            let mut x = 1f64;
            let mut left = u64::from(total);
            while v.len() < n {
                x = (x * f64::from(g) / 10.0).max(x + if g > 12 { 0.0 } else { 0.2 });
                let c = (x as u64 + add).max(1);
                if c > left {
                    break;
                }
                left -= c;
                v.push(c);
            }
            if desc {
                v.reverse();
            }
            v.into_iter().map(|x| x.min(60_000) as u16).collect()
        }).boxed()),
        // exact Fibonacci numbers
        (3, (len, any::<bool>(), 0u64..2).prop_map(move |(n, desc, dup)| {
            let mut v: Vec<u64> = vec![1, 1];
            let mut sum = 2;
            while v.len() < n {
                let c = v[v.len() - 1] + v[v.len() - 2] + dup * (v.len() as u64 % 2);
                if sum + c > u64::from(total) {
                    break;
                }
                sum += c;
                v.push(c);
            }
            if desc {
                v.reverse();
            }
            v.into_iter().map(|x| x as u16).collect()
        }).boxed()),
    ])
}

pub fn freq_seg() -> BoxedStrategy<Seg> {
    (any::<u32>(), arb(vec![(3, counts(1..30, 31_000)), (2, counts(1..257, 31_000)), (1, counts(1..257, 3000)), (1, counts(1..40, 300))]),
     any::<u8>(), arb(vec![(3, Just(1u8).boxed()), (1, any::<u8>().boxed())]))
        .prop_map(|(seed, counts, base, stride)| Seg::Freq { seed, counts, base, stride: stride | 1 })
        .boxed()
}

pub fn dist_seg() -> BoxedStrategy<Seg> {
    (any::<u32>(), counts(1..31, 31_000), 3u16..8).prop_map(|(seed, counts, len)| Seg::DistFreq { seed, counts, len }).boxed()
}

/// Skewed symbol and distance statistics: deep and flat Huffman trees, few or many symbols.
pub fn skew() -> BoxedStrategy<Vec<Seg>> {
    let s = any::<u32>;
    arb(vec![
        (4, vec(freq_seg(), 1..3).boxed()),
        (1, (s(), 0u32..2000, freq_seg()).prop_map(|(seed, len, f)| vec![Seg::Uniq { seed, len }, f]).boxed()),
        (2, (s(), 300u32..40_000, dist_seg()).prop_map(|(seed, len, d)| vec![Seg::Uniq { seed, len }, d]).boxed()),
        (1, (s(), 300u32..40_000, dist_seg(), freq_seg()).prop_map(|(seed, len, d, f)| vec![Seg::Uniq { seed, len }, d, f]).boxed()),
    ])
}

/// Something near a window/buffer/block boundary: filler, then a match straddling the boundary.
pub fn boundary_match() -> BoxedStrategy<Vec<Seg>> {
    (
        any::<u32>(),
        0u8..8,
        -270i16..=10,
        0u8..4,
        arb(vec![(2, (3u32..12).boxed()), (2, (3u32..=258).boxed()), (1, (250u32..3000).boxed())]),
        dist(),
        vec(seg(2000), 0..3),
        any::<bool>(),
        vec(seg(40_000), 0..2),
    )
        .prop_map(|(seed, unit, delta, kind, len, dist, tail, uniq_tail, pre)| {
            let mut v = pre;
            v.push(Seg::FillTo { seed, unit, delta, kind });
            v.push(Seg::Copy { dist, len });
            if uniq_tail {
                v.push(Seg::Uniq { seed: seed ^ 1, len: 5 });
            }
            v.extend(tail);
            v
        })
        .boxed()
}

/// Data whose lz77 symbol count is known, so that blocks end at chosen places: unmatchable
/// literals up to about a full symbol buffer, then matches/runs around the end of the block.
pub fn full_block() -> BoxedStrategy<Vec<Seg>> {
    (
        any::<u32>(),
        1u32..4,
        -6i32..=6,
        dist(),
        arb(vec![(2, (3u32..12).boxed()), (2, (3u32..=260).boxed())]),
        0u32..40_000,
        vec(seg(3000), 0..3),
        any::<bool>(),
    )
        .prop_map(|(seed, k, d, dist, len, more, tail, run)| {
            let mut v = vec![
                Seg::Uniq { seed, len: (k as i32 * 31744 - 1 + d).max(0) as u32 },
                if run { Seg::Run { b: seed as u8, len } } else { Seg::Copy { dist, len } },
                Seg::Uniq { seed: seed ^ 7, len: more },
            ];
            v.extend(tail);
            v
        })
        .boxed()
}

/// Unmatchable data with just enough long matches early on that symbol `j * 31744` (the last of a
/// block) is a match around the end of window `w`.
pub fn aligned_block() -> BoxedStrategy<Vec<Seg>> {
    (
        (any::<u32>(), 1i64..=4, 0i64..4, arb(vec![(3, Just(0i64).boxed()), (1, (-3i64..=3).boxed())])),
        (3i64..=258, arb(vec![(1, Just(0i64).boxed()), (4, (0i64..=256).boxed())]), -2i64..=2),
        dist(),
        any::<bool>(),
        0u32..25_000,
        size(40_000),
        vec(seg(3000), 0..2),
    )
        .prop_map(|((seed, w, jj, d), (len, over, dd), dist, run, at, more, tail)| {
            let j = if jj < 2 { w } else { (w - jj + 1).max(1) };
            let rep = |i: i64, n: i64| -> Vec<Seg> {
                let s = seed.wrapping_add(i as u32 * 77);
                vec![
                    // At least a literal in between, so that every match ends where it should.
                    Seg::Uniq { seed: s, len: 1 + (i == 0) as u32 * 299 },
                    if run { Seg::Run { b: (s >> 3) as u8, len: n as u32 + 1 } } else { Seg::Copy { dist: 260 + (s % 3000) as u16, len: n as u32 } },
                ]
            };
            let end = w * 32_768 + over.min(len - 1) + dd * (over == 0) as i64;
            let before = end - len;
            let symbols = j * 31_744 - 1 + d;
            let mut extra = before - symbols;
            let mut v = vec![Seg::Uniq { seed: seed ^ 9, len: at.max(300) }];
            let mut n = i64::from(at.max(300));
            let mut i = 0;
            while extra > 1 {
                let l = if extra < 257 { extra + 1 } else { 258.min(extra - 1) };
                v.extend(rep(i, l));
                n += 1 + (i == 0) as i64 * 299 + l + run as i64;
                extra -= l - 1;
                i += 1;
            }
            v.push(Seg::Uniq { seed, len: (before - n - run as i64).max(0) as u32 });
            v.push(if run { Seg::Run { b: seed as u8, len: len as u32 + 1 } } else { Seg::Copy { dist, len: len as u32 } });
            v.push(Seg::Uniq { seed: seed ^ 7, len: more });
            v.extend(tail);
            v
        })
        .boxed()
}

// ---------------------------------------------------------------- options

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Opts {
    Level(u8),
    Preset(u8),
    Custom { checks: u16, lazy_below: u16, lazy: bool, special: u8 },
}

impl Opts {
    pub fn get(&self) -> CompressionOptions {
        match *self {
            Opts::Level(n) => CompressionOptions::from(match n % 3 {
                0 => Compression::Fast,
                1 => Compression::Default,
                _ => Compression::Best,
            }),
            Opts::Preset(n) => match n % 5 {
                0 => CompressionOptions::fast(),
                1 => CompressionOptions::default(),
                2 => CompressionOptions::high(),
                3 => CompressionOptions::huffman_only(),
                _ => CompressionOptions::rle(),
            },
            Opts::Custom { checks, lazy_below, lazy, special } => CompressionOptions {
                max_hash_checks: checks,
                lazy_if_less_than: lazy_below,
                matching_type: if lazy { MatchingType::Lazy } else { MatchingType::Greedy },
                special: match special % 3 {
                    0 => SpecialOptions::Normal,
                    1 => SpecialOptions::_ForceFixed,
                    _ => SpecialOptions::_ForceStored,
                },
            },
        }
    }
    pub fn class(&self) -> String {
        let o = self.get();
        let m = match o.matching_type {
            MatchingType::Greedy => "greedy",
            MatchingType::Lazy => "lazy",
        };
        match o.max_hash_checks {
            0 if m == "greedy" => "huffman_only".into(),
            0 => "rle".into(),
            n => format!("{}{}", m, if n <= 4 { "-few" } else if n <= 200 { "-medium" } else { "-many" }),
        }
    }
}

pub fn checks() -> BoxedStrategy<u16> {
    arb(vec![
        (3, proptest::sample::select(vec![0u16, 1, 2, 3, 4, 8, 16, 32, 128, 1768]).boxed()),
        (1, proptest::sample::select(vec![4096u16, 32767, 32768, 32769, 65535]).boxed()),
        (1, (0u16..200).boxed()),
        (1, any::<u16>().boxed()),
    ])
}

pub fn lazy_below() -> BoxedStrategy<u16> {
    arb(vec![
        (3, proptest::sample::select(vec![0u16, 1, 2, 3, 4, 5, 32, 64, 128, 257, 258, 259]).boxed()),
        (1, (0u16..260).boxed()),
        (1, proptest::sample::select(vec![300u16, 1000, 32767, 32768, 43212, 65535]).boxed()),
        (1, any::<u16>().boxed()),
    ])
}

pub fn opts() -> BoxedStrategy<Opts> {
    arb(vec![
        (2, (0u8..3).prop_map(Opts::Level).boxed()),
        (4, (0u8..5).prop_map(Opts::Preset).boxed()),
        (6, (checks(), lazy_below(), any::<bool>(), 0u8..3)
            .prop_map(|(checks, lazy_below, lazy, special)| Opts::Custom { checks, lazy_below, lazy, special })
            .boxed()),
    ])
}

pub fn fmt() -> BoxedStrategy<Fmt> {
    proptest::sample::select(vec![Fmt::Raw, Fmt::Zlib, Fmt::Gzip]).boxed()
}

/// Fields of a gzip header.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct GzRec {
    pub mtime: Option<u32>,
    pub os: Option<u8>,
    pub xfl: Option<u8>,
    pub extra: Option<Vec<u8>>,
    pub name: Option<Vec<u8>>,
    pub comment: Option<Vec<u8>>,
}

impl GzRec {
    pub fn builder(&self) -> gzip_header::GzBuilder {
        let mut b = gzip_header::GzBuilder::new();
        if let Some(m) = self.mtime {
            b = b.mtime(m);
        }
        if let Some(o) = self.os {
            b = b.os(gzip_header::FileSystemType::from_u8(o));
        }
        if let Some(x) = self.xfl {
            b = b.xfl(gzip_header::ExtraFlags::from_u8(x));
        }
        if let Some(x) = &self.extra {
            b = b.extra(x.clone());
        }
        if let Some(x) = &self.name {
            b = b.filename(x.clone());
        }
        if let Some(x) = &self.comment {
            b = b.comment(x.clone());
        }
        b
    }
}

pub fn gzrec() -> BoxedStrategy<GzRec> {
    let cstr = || {
        arb(vec![
            (3, vec(1u8..=255, 0..12).boxed()),
            (1, vec(1u8..=255, 0..2000).boxed()),
        ])
    };
    use proptest::option::of;
    arb(vec![
        (3, Just(GzRec::default()).boxed()),
        (4, (
            of(any::<u32>()),
            of(0u8..15),
            of(proptest::sample::select(vec![0u8, 2, 4])),
            of(arb(vec![(3, vec(any::<u8>(), 0..20).boxed()), (1, vec(any::<u8>(), 0..1000).boxed()),
                       (1, vec(any::<u8>(), 60_000..65_536).boxed())])),
            of(cstr()),
            of(cstr()),
        )
            .prop_map(|(mtime, os, xfl, extra, name, comment)| GzRec { mtime, os, xfl, extra, name, comment })
            .boxed()),
    ])
}

// ---------------------------------------------------------------- histories

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// Write the next n bytes of the data (all that is left if fewer).
    Write(u32),
    /// Write up to the next multiple of UNITS[unit] plus delta.
    WriteTo { unit: u8, delta: i16 },
    /// n single calls of `step` bytes.
    Steps { n: u16, step: u16 },
    /// n times: write `step` bytes, flush, and (if `empty`) write nothing.
    Pulse { n: u16, step: u16, empty: bool },
    Empty,
    Flush,
}

pub fn op(flush: u32) -> BoxedStrategy<Op> {
    let mut v = vec![
        (6, size(150_000).prop_map(Op::Write).boxed()),
        (4, (0u8..8, arb(vec![(3, (-4i16..=4).boxed()), (1, (-300i16..=300).boxed())]))
            .prop_map(|(unit, delta)| Op::WriteTo { unit, delta }).boxed()),
        (2, (1u16..60, 1u16..5).prop_map(|(n, step)| Op::Steps { n, step }).boxed()),
        (1, (1u16..60, 1u16..3000).prop_map(|(n, step)| Op::Steps { n, step }).boxed()),
        (1, Just(Op::Empty).boxed()),
    ];
    if flush > 0 {
        v.push((flush * 3, Just(Op::Flush).boxed()));
        for x in v.iter_mut().rev().skip(1) {
            x.0 *= 3;
        }
        v.push((flush, (1u16..40, 0u16..6, any::<bool>()).prop_map(|(n, step, empty)| Op::Pulse { n, step, empty }).boxed()));
    }
    arb(v)
}

pub fn ops(flush: u32) -> BoxedStrategy<Vec<Op>> {
    arb(vec![
        (1, Just(vec![]).boxed()),
        (4, vec(op(flush), 1..6).boxed()),
        (3, vec(op(flush), 1..25).boxed()),
        (1, vec(arb(if flush > 0 {
            vec![(2, (1u32..8).prop_map(Op::Write).boxed()), (1, Just(Op::Flush).boxed())]
        } else {
            vec![(2, (1u32..8).prop_map(Op::Write).boxed())]
        }), 1..60).boxed()),
    ])
}

/// Concrete steps: (from, to) writes, None = flush. Everything left is written at the end.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    Write(usize, usize),
    Flush,
}

pub fn plan(ops: &[Op], len: usize) -> Vec<Step> {
    let mut pos = 0;
    let mut v = vec![];
    for o in ops {
        match *o {
            Op::Write(n) => {
                let e = (pos + n as usize).min(len);
                v.push(Step::Write(pos, e));
                pos = e;
            }
            Op::WriteTo { unit, delta } => {
                let u = UNITS[usize::from(unit) % UNITS.len()] as i64;
                let mut t = (pos as i64 / u + 1) * u + i64::from(delta);
                while t <= pos as i64 {
                    t += u;
                }
                let e = (t as usize).min(len);
                v.push(Step::Write(pos, e));
                pos = e;
            }
            Op::Steps { n, step } => {
                for _ in 0..n {
                    if pos >= len {
                        break;
                    }
                    let e = (pos + usize::from(step)).min(len);
                    v.push(Step::Write(pos, e));
                    pos = e;
                }
            }
            Op::Pulse { n, step, empty } => {
                for _ in 0..n {
                    let e = (pos + usize::from(step)).min(len);
                    v.push(Step::Write(pos, e));
                    v.push(Step::Flush);
                    if empty {
                        v.push(Step::Write(e, e));
                    }
                    pos = e;
                }
            }
            Op::Empty => v.push(Step::Write(pos, pos)),
            Op::Flush => v.push(Step::Flush),
        }
    }
    if pos < len {
        v.push(Step::Write(pos, len));
    }
    v
}

// ---------------------------------------------------------------- sinks

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Beh {
    /// Accept everything.
    All,
    /// Accept up to n (>= 1) bytes.
    Take(u32),
    /// Accept all but n bytes (at least one).
    AllBut(u32),
    Interrupted,
    /// Fail with ERR_KINDS[n].
    Err(u8),
    /// Return Ok(0).
    Zero,
}

pub const ERR_KINDS: [std::io::ErrorKind; 6] = [
    std::io::ErrorKind::Other,
    std::io::ErrorKind::WouldBlock,
    std::io::ErrorKind::BrokenPipe,
    std::io::ErrorKind::TimedOut,
    std::io::ErrorKind::WriteZero,
    std::io::ErrorKind::PermissionDenied,
];

pub fn take() -> BoxedStrategy<u32> {
    arb(vec![
        (3, (1u32..10).boxed()),
        (3, (1u32..1000).boxed()),
        (2, (1u32..70_000).boxed()),
        (1, (32_700u32..32_840).boxed()),
    ])
}

pub fn benign_beh() -> BoxedStrategy<Beh> {
    arb(vec![
        (2, Just(Beh::All).boxed()),
        (5, take().prop_map(Beh::Take).boxed()),
        (2, (1u32..12).prop_map(Beh::AllBut).boxed()),
        (2, Just(Beh::Interrupted).boxed()),
    ])
}

pub fn faulty_beh() -> BoxedStrategy<Beh> {
    arb(vec![
        (4, Just(Beh::All).boxed()),
        (4, take().prop_map(Beh::Take).boxed()),
        (2, (1u32..12).prop_map(Beh::AllBut).boxed()),
        (1, Just(Beh::Interrupted).boxed()),
        (4, (0u8..6).prop_map(Beh::Err).boxed()),
        (1, Just(Beh::Zero).boxed()),
    ])
}

/// A schedule: what the sink does at its first calls, then what it repeats.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched {
    pub first: Vec<Beh>,
    /// Repeated after `first` for `cycles` rounds; then everything is accepted.
    pub cycle: Vec<Beh>,
    pub cycles: u16,
    /// Only calls from this many delivered bytes on are scheduled; before that all is accepted.
    pub from: u32,
}

impl Sched {
    pub fn all() -> Sched {
        Sched { first: vec![], cycle: vec![], cycles: 0, from: 0 }
    }
    pub fn at(&self, i: usize) -> Beh {
        if i < self.first.len() {
            return self.first[i];
        }
        let i = i - self.first.len();
        if self.cycle.is_empty() || i >= self.cycle.len() * usize::from(self.cycles) {
            return Beh::All;
        }
        self.cycle[i % self.cycle.len()]
    }
    pub fn len(&self) -> usize {
        self.first.len() + self.cycle.len() * usize::from(self.cycles)
    }
}

pub fn sched(beh: BoxedStrategy<Beh>) -> BoxedStrategy<Sched> {
    (
        vec(beh.clone(), 0..8),
        vec(beh, 0..4),
        arb(vec![(1, Just(0u16).boxed()), (2, (0u16..20).boxed()), (2, (0u16..2000).boxed())]),
        arb(vec![(3, Just(0u32).boxed()), (1, (0u32..200).boxed()), (2, (0u32..150_000).boxed())]),
    )
        .prop_map(|(first, cycle, cycles, from)| Sched { first, cycle, cycles, from })
        .boxed()
}
