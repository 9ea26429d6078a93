//! Reference algorithms: optimal (length-limited) codes, a plain run-length coder for code length
//! tables, and an exhaustive longest-match search.

/// Total bits of an optimal prefix code without a length limit, and the depth of the deepest code
/// under the tie-breaking which makes codes as long as possible.
/// A single symbol takes one bit.
pub fn huffman(freqs: &[u32]) -> (u64, usize) {
    let mut f: Vec<u64> = freqs.iter().filter(|&&f| f > 0).map(|&f| u64::from(f)).collect();
    if f.is_empty() {
        return (0, 0);
    }
    if f.len() == 1 {
        return (f[0], 1);
    }
    f.sort_unstable();
    // Two queues; ties take the deeper tree first.
    let mut q: std::collections::BinaryHeap<(std::cmp::Reverse<u64>, usize)> = f.iter().map(|&x| (std::cmp::Reverse(x), 0)).collect();
    let mut total = 0;
    loop {
        let (a, da) = q.pop().unwrap();
        let (b, db) = match q.pop() {
            None => return (total, da),
            Some(x) => x,
        };
        let s = a.0 + b.0;
        total += s;
        q.push((std::cmp::Reverse(s), da.max(db) + 1));
    }
}

/// Total bits of an optimal prefix code with lengths of at most `limit` (package-merge).
pub fn limited(freqs: &[u32], limit: usize) -> u64 {
    let mut f: Vec<u64> = freqs.iter().filter(|&&f| f > 0).map(|&f| u64::from(f)).collect();
    if f.is_empty() {
        return 0;
    }
    if f.len() == 1 {
        return f[0];
    }
    f.sort_unstable();
    let n = f.len();
    // Each list holds (weight, leaves) sorted; the leaf counts per level give the lengths, the
    // total is the sum of the weights of the first 2n-2 items of the last list.
    let mut prev: Vec<u64> = f.clone();
    for _ in 1..limit {
        let pk: Vec<u64> = prev.chunks_exact(2).map(|c| c[0] + c[1]).collect();
        let mut m = Vec::with_capacity(n + pk.len());
        let (mut i, mut j) = (0, 0);
        while i < n || j < pk.len() {
            if j >= pk.len() || i < n && f[i] <= pk[j] {
                m.push(f[i]);
                i += 1;
            } else {
                m.push(pk[j]);
                j += 1;
            }
        }
        prev = m;
    }
    prev.iter().take(2 * n - 2).sum()
}

/// Optimal lengths with a limit (package-merge with coins).
pub fn limited_lengths(freqs: &[u32], limit: usize) -> Vec<u8> {
    let mut syms: Vec<(u64, usize)> = freqs.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, &f)| (u64::from(f), i)).collect();
    let mut out = vec![0u8; freqs.len()];
    match syms.len() {
        0 => return out,
        1 => {
            out[syms[0].1] = 1;
            return out;
        }
        _ => (),
    }
    syms.sort_unstable();
    type Node = (u64, Vec<u16>);
    let leaves: Vec<Node> = syms.iter().map(|&(f, s)| (f, vec![s as u16])).collect();
    let mut prev = leaves.clone();
    for _ in 1..limit {
        let mut pk: Vec<Node> = prev
            .chunks_exact(2)
            .map(|c| {
                let mut v = c[0].1.clone();
                v.extend_from_slice(&c[1].1);
                (c[0].0 + c[1].0, v)
            })
            .collect();
        pk.extend(leaves.iter().cloned());
        pk.sort_by_key(|x| x.0);
        prev = pk;
    }
    for (_, v) in prev.into_iter().take(2 * syms.len() - 2) {
        for s in v {
            out[s as usize] += 1;
        }
    }
    out
}

/// Bits of the description of a pair of code length tables, coded the plain way: trailing zeroes
/// trimmed, runs coded greedily as zlib does, optimal code of at most 7 bits for the symbols.
/// Includes the block's three header bits. The second value is what a code length code which is not
/// optimally limited to 7 bits may take on top.
pub fn header_bits(ll: &[u8], d: &[u8]) -> (u64, u64) {
    let trim = |v: &[u8], min: usize| {
        let n = v.iter().rposition(|&x| x > 0).map_or(0, |p| p + 1).max(min);
        v[..n.min(v.len())].to_vec()
    };
    let mut all = trim(ll, 257);
    all.extend(trim(d, 1));
    let mut f = [0u32; 19];
    let mut extra = 0u64;
    let mut i = 0;
    while i < all.len() {
        let v = all[i];
        let mut n = 1;
        while i + n < all.len() && all[i + n] == v {
            n += 1;
        }
        i += n;
        if v == 0 {
            while n >= 11 {
                let k = n.min(138);
                f[18] += 1;
                extra += 7;
                n -= k;
            }
            if n >= 3 {
                f[17] += 1;
                extra += 3;
                n = 0;
            }
            f[0] += n as u32;
        } else {
            f[v as usize] += 1;
            n -= 1;
            while n >= 3 {
                let k = n.min(6);
                f[16] += 1;
                extra += 2;
                n -= k;
            }
            f[v as usize] += n as u32;
        }
    }
    let lens = limited_lengths(&f, 7);
    let order = [16usize, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
    let hclen = order.iter().rposition(|&s| lens[s] > 0).map_or(0, |p| p + 1).max(4) as u64;
    let body: u64 = f.iter().zip(&lens).map(|(&f, &l)| u64::from(f) * u64::from(l)).sum();
    let slack = if huffman(&f).1 > 7 { limit_slack(body, 19, 7) } else { 0 };
    (3 + 14 + 3 * hclen + body + extra, slack)
}

/// How much longer than the optimal `bits` a code for `n` symbols made to fit a length limit by a
/// simple heuristic may be. The common heuristic (zlib, miniz) exceeds the optimum by up to 12 % with
/// a limit of 7 bits and far less with 15.
pub fn limit_slack(bits: u64, n: u64, limit: usize) -> u64 {
    n + bits / if limit < 10 { 7 } else { 50 }
}

/// Longest earlier occurrences by exhaustive search.
pub struct Finder<'a> {
    d: &'a [u8],
    prev: Vec<u32>,
    /// Positions which are not to be relied on as sources.
    weak: Vec<bool>,
    /// Number of those up to each position.
    weak_sum: Vec<u32>,
    pub steps: u64,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Found {
    /// Longest which may be found; longest which must be found.
    pub hi: usize,
    pub lo: usize,
}

const NONE: u32 = u32::MAX;

impl<'a> Finder<'a> {
    pub fn new(d: &'a [u8], weak: Vec<bool>) -> Finder<'a> {
        // The encoder's hash function, so that the length of its chains is known too.
        let mut head = vec![NONE; 1 << 15];
        let mut prev = vec![NONE; d.len()];
        for i in 0..d.len().saturating_sub(2) {
            let k = (u32::from(d[i]) << 10 ^ u32::from(d[i + 1]) << 5 ^ u32::from(d[i + 2])) & 0x7fff;
            prev[i] = head[k as usize];
            head[k as usize] = i as u32;
        }
        let mut weak_sum = vec![0];
        for &w in &weak {
            weak_sum.push(weak_sum.last().unwrap() + u32::from(w));
        }
        Finder { d, prev, weak, weak_sum, steps: 0 }
    }

    /// For a match of length `len` at p, `dist` back: the nearest reliable source further up which
    /// matches as long, and how many reliable sources there are which match three bytes or more.
    pub fn nearer(&mut self, p: usize, dist: usize, len: usize) -> (Option<usize>, usize) {
        let d = self.d;
        let (mut near, mut rank) = (None, 0);
        let mut s = self.prev[p];
        while s != NONE && s as usize > p - dist {
            let q = s as usize;
            self.steps += 1;
            s = self.prev[q];
            if self.weak[q] || d[q..q + 3] != d[p..p + 3] {
                continue;
            }
            rank += 1;
            if near.is_none() && d[q + len - 1] == d[p + len - 1] && d[q..q + len] == d[p..p + len] {
                near = Some(p - q);
            }
        }
        (near, rank)
    }

    /// At position p, with data up to `limit` visible. Matches of length 3 only count up to `far`.
    /// At least `sure` and at most `max_checks` sources are compared with, most recent first. The
    /// unreliable ones may or may not be among them.
    pub fn find(&mut self, p: usize, limit: usize, far: usize, sure: usize, max_checks: usize) -> Found {
        let mut r = Found::default();
        let max = (limit - p).min(258);
        if max < 3 {
            return r;
        }
        let d = self.d;
        let mut rank = 0;
        let mut s = self.prev[p];
        while s != NONE {
            let q = s as usize;
            let dist = p - q;
            if dist > 32768 {
                break;
            }
            if rank >= max_checks {
                break;
            }
            self.steps += 1;
            s = self.prev[q];
            let weak = self.weak[q];
            rank += usize::from(!weak);
            if d[q] != d[p] || d[q + 1] != d[p + 1] || d[q + 2] != d[p + 2] {
                continue;
            }
            let counts = !weak && rank + (self.weak_sum[p] - self.weak_sum[q]) as usize <= sure;
            let best = if counts { r.lo } else { r.hi };
            if best >= max || best >= 3 && d[q + best] != d[p + best] {
                continue;
            }
            let mut l = 3;
            while l < max && d[q + l] == d[p + l] {
                l += 1;
            }
            if l == 3 && dist > far {
                continue;
            }
            if l > r.hi {
                r.hi = l;
            }
            if counts && l > r.lo {
                r.lo = l;
            }
        }
        r
    }
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn optimal() {
        assert_eq!(huffman(&[1, 1, 1, 1]).0, 8);
        assert_eq!(limited(&[1, 1, 2, 3, 5, 8, 13], 15), huffman(&[1, 1, 2, 3, 5, 8, 13]).0);
        let f: Vec<u32> = vec![1, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144];
        for lim in 4..12 {
            let l = limited_lengths(&f, lim);
            let c: u64 = f.iter().zip(&l).map(|(&f, &l)| u64::from(f) * u64::from(l)).sum();
            assert_eq!(c, limited(&f, lim));
            assert!(l.iter().all(|&x| usize::from(x) <= lim));
        }
        assert_eq!(huffman(&f).1, 11);
    }
}
