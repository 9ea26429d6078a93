//! Oracle: a strict, independent decoder for RFC 1951 / 1950 / 1952 that exposes the structure of
//! the stream (blocks, code lengths, symbol frequencies, matches). It rejects everything a
//! conforming decoder may reject, and can decode prefixes of streams.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Stored,
    Fixed,
    Dynamic,
}

#[derive(Clone, Debug)]
pub struct Block {
    pub kind: Kind,
    pub fin: bool,
    /// Bit position of the three header bits.
    pub bit_start: u64,
    pub bit_end: u64,
    /// First bit after all header information (code lengths, or LEN/NLEN).
    pub body_start: u64,
    pub out_start: usize,
    pub out_end: usize,
    /// Literal/length and distance code lengths as transmitted (dynamic only).
    pub ll_len: Vec<u8>,
    pub d_len: Vec<u8>,
    pub n_hclen: usize,
    /// Lengths and symbol counts of the code for the code lengths.
    pub cl_len: Vec<u8>,
    pub cl_freq: Vec<u32>,
    /// Symbol counts (empty for stored blocks).
    pub ll_freq: Vec<u32>,
    pub d_freq: Vec<u32>,
    pub m_start: usize,
    pub m_end: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Match {
    pub pos: u32,
    pub len: u16,
    pub dist: u16,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    /// The final block has been decoded.
    Done,
    /// The input ended at a block boundary (no final block yet) or inside a block.
    Truncated,
    Invalid(String),
}

pub const LBASE: [u16; 29] = [
    3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131,
    163, 195, 227, 258,
];
pub const LEXT: [u8; 29] = [
    0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0,
];
pub const DBASE: [u16; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049,
    3073, 4097, 6145, 8193, 12289, 16385, 24577,
];
pub const DEXT: [u8; 30] = [
    0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13,
];
const CLORDER: [usize; 19] = [
    16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15,
];

pub fn fixed_ll() -> Vec<u8> {
    let mut v = vec![8u8; 288];
    for x in v[144..256].iter_mut() {
        *x = 9;
    }
    for x in v[256..280].iter_mut() {
        *x = 7;
    }
    v
}

struct Table {
    bits: u32,
    // symbol << 4 | length, 0 = no such code
    t: Vec<u16>,
}

#[derive(PartialEq, Clone, Copy)]
enum Rule {
    /// Must be complete.
    Complete,
    /// Must be complete, or consist of a single code of length 1.
    CompleteOrSingle,
    /// As above, or empty.
    CompleteSingleOrEmpty,
}

fn build(lens: &[u8], rule: Rule, what: &str) -> Result<Table, String> {
    let mut count = [0u32; 16];
    for &l in lens {
        if l > 15 {
            return Err(format!("{} code length {}", what, l));
        }
        count[l as usize] += 1;
    }
    count[0] = 0;
    let n: u32 = count.iter().sum();
    let maxb = (1..16).rev().find(|&i| count[i] > 0).unwrap_or(0);
    if n == 0 {
        return if rule == Rule::CompleteSingleOrEmpty {
            Ok(Table { bits: 0, t: vec![0] })
        } else {
            Err(format!("{} code is empty", what))
        };
    }
    let mut left: i64 = 1;
    for c in count.iter().skip(1) {
        left <<= 1;
        left -= i64::from(*c);
        if left < 0 {
            return Err(format!("{} code is over-subscribed", what));
        }
    }
    if left > 0 && !(rule != Rule::Complete && n == 1 && count[1] == 1) {
        return Err(format!("{} code is incomplete", what));
    }
    let mut next = [0u32; 16];
    let mut code = 0;
    for b in 1..16 {
        code = (code + count[b - 1]) << 1;
        next[b] = code;
    }
    let mut t = vec![0u16; 1 << maxb];
    for (s, &l) in lens.iter().enumerate() {
        if l == 0 {
            continue;
        }
        let c = next[l as usize];
        next[l as usize] += 1;
        let r = c.reverse_bits() >> (32 - u32::from(l));
        let step = 1usize << l;
        let mut i = r as usize;
        while i < t.len() {
            t[i] = (s as u16) << 4 | u16::from(l);
            i += step;
        }
    }
    Ok(Table {
        bits: maxb as u32,
        t,
    })
}

struct Bits<'a> {
    d: &'a [u8],
    pos: u64,
    end: u64,
}

impl<'a> Bits<'a> {
    #[inline]
    fn peek(&self) -> u64 {
        let b = (self.pos >> 3) as usize;
        let s = self.pos & 7;
        let v = if b + 8 <= self.d.len() {
            u64::from_le_bytes([
                self.d[b],
                self.d[b + 1],
                self.d[b + 2],
                self.d[b + 3],
                self.d[b + 4],
                self.d[b + 5],
                self.d[b + 6],
                self.d[b + 7],
            ])
        } else {
            let mut a = [0u8; 8];
            for (i, x) in self.d[b.min(self.d.len())..].iter().enumerate() {
                a[i] = *x;
            }
            u64::from_le_bytes(a)
        };
        v >> s
    }
    /// Returns Err if not enough bits are left.
    #[inline]
    fn take(&mut self, n: u32) -> Result<u32, Fail> {
        if self.pos + u64::from(n) > self.end {
            return Err(Fail::Trunc);
        }
        let v = self.peek() & ((1u64 << n) - 1);
        self.pos += u64::from(n);
        Ok(v as u32)
    }
    #[inline]
    fn sym(&mut self, t: &Table) -> Result<usize, Fail> {
        let v = self.peek() & ((1u64 << t.bits) - 1);
        let e = t.t[v as usize];
        let l = u64::from(e & 15);
        if l == 0 {
            // Might just be missing bits.
            if self.pos + u64::from(t.bits) > self.end {
                return Err(Fail::Trunc);
            }
            return Err(Fail::Bad("unassigned Huffman code used".into()));
        }
        if self.pos + l > self.end {
            return Err(Fail::Trunc);
        }
        self.pos += l;
        Ok(usize::from(e >> 4))
    }
}

enum Fail {
    Trunc,
    Bad(String),
}

/// A resumable decoder: `run` decodes as far as the supplied data goes. Call it again with more of
/// the same stream (the data seen before followed by new data) to continue; a block that was cut
/// is decoded again from its start.
pub struct Inflater {
    pub out: Vec<u8>,
    pub blocks: Vec<Block>,
    pub matches: Vec<Match>,
    /// Bit position of the end of the last complete block.
    pub bitpos: u64,
    pub done: bool,
    safe_out: usize,
    safe_matches: usize,
}

impl Inflater {
    pub fn new() -> Inflater {
        Inflater {
            out: Vec::new(),
            blocks: Vec::new(),
            matches: Vec::new(),
            bitpos: 0,
            done: false,
            safe_out: 0,
            safe_matches: 0,
        }
    }

    pub fn run(&mut self, data: &[u8]) -> Stop {
        self.out.truncate(self.safe_out);
        self.matches.truncate(self.safe_matches);
        while !self.done {
            match self.block(data) {
                Ok(b) => {
                    self.bitpos = b.bit_end;
                    self.done = b.fin;
                    self.safe_out = self.out.len();
                    self.safe_matches = self.matches.len();
                    self.blocks.push(b);
                }
                Err(Fail::Trunc) => return Stop::Truncated,
                Err(Fail::Bad(s)) => {
                    return Stop::Invalid(format!(
                        "{} (block {} starting at bit {}, output position {})",
                        s,
                        self.blocks.len(),
                        self.bitpos,
                        self.out.len()
                    ))
                }
            }
        }
        Stop::Done
    }

    fn block(&mut self, data: &[u8]) -> Result<Block, Fail> {
        let mut r = Bits {
            d: data,
            pos: self.bitpos,
            end: data.len() as u64 * 8,
        };
        let out_start = self.out.len();
        let m_start = self.matches.len();
        let fin = r.take(1)? == 1;
        let kind = r.take(2)?;
        let mut b = Block {
            kind: Kind::Stored,
            fin,
            bit_start: self.bitpos,
            bit_end: 0,
            body_start: 0,
            out_start,
            out_end: 0,
            ll_len: vec![],
            d_len: vec![],
            n_hclen: 0,
            cl_len: vec![],
            cl_freq: vec![],
            ll_freq: vec![],
            d_freq: vec![],
            m_start,
            m_end: m_start,
        };
        match kind {
            0 => {
                r.pos = (r.pos + 7) & !7;
                let len = r.take(16)?;
                let nlen = r.take(16)?;
                if len != (!nlen & 0xffff) {
                    return Err(Fail::Bad("stored block LEN/NLEN mismatch".into()));
                }
                b.body_start = r.pos;
                let s = (r.pos >> 3) as usize;
                let have = data.len() - s;
                if have < len as usize {
                    self.out.extend_from_slice(&data[s..]);
                    return Err(Fail::Trunc);
                }
                self.out.extend_from_slice(&data[s..s + len as usize]);
                r.pos += u64::from(len) * 8;
                b.bit_end = r.pos;
            }
            1 => {
                b.kind = Kind::Fixed;
                b.body_start = r.pos;
                thread_local! {
                    static FIXED: (Table, Table) = (
                        build(&fixed_ll(), Rule::Complete, "fixed").ok().unwrap(),
                        build(&[5; 32], Rule::Complete, "fixed").ok().unwrap());
                }
                FIXED.with(|f| self.codes(&mut r, &f.0, &f.1, &mut b))?;
            }
            2 => {
                b.kind = Kind::Dynamic;
                let hlit = r.take(5)? as usize + 257;
                let hdist = r.take(5)? as usize + 1;
                let hclen = r.take(4)? as usize + 4;
                if hlit > 286 {
                    return Err(Fail::Bad("more than 286 literal/length codes".into()));
                }
                if hdist > 30 {
                    return Err(Fail::Bad("more than 30 distance codes".into()));
                }
                let mut cl = [0u8; 19];
                for &i in CLORDER.iter().take(hclen) {
                    cl[i] = r.take(3)? as u8;
                }
                let ct = build(&cl, Rule::Complete, "code length").map_err(Fail::Bad)?;
                let mut clf = vec![0u32; 19];
                let mut lens: Vec<u8> = Vec::with_capacity(320);
                while lens.len() < hlit + hdist {
                    let s = r.sym(&ct)?;
                    clf[s] += 1;
                    let (v, n) = match s {
                        0..=15 => (s as u8, 1),
                        16 => {
                            let p = match lens.last() {
                                Some(&p) => p,
                                None => {
                                    return Err(Fail::Bad("length repeat without a length".into()))
                                }
                            };
                            (p, 3 + r.take(2)?)
                        }
                        17 => (0, 3 + r.take(3)?),
                        _ => (0, 11 + r.take(7)?),
                    };
                    if lens.len() + n as usize > hlit + hdist {
                        return Err(Fail::Bad("too many code lengths".into()));
                    }
                    for _ in 0..n {
                        lens.push(v);
                    }
                }
                b.d_len = lens.split_off(hlit);
                b.ll_len = lens;
                b.n_hclen = hclen;
                b.cl_len = cl.to_vec();
                b.cl_freq = clf;
                if b.ll_len[256] == 0 {
                    return Err(Fail::Bad("no end of block code".into()));
                }
                let lt = build(&b.ll_len, Rule::CompleteOrSingle, "literal/length")
                    .map_err(Fail::Bad)?;
                let dt = build(&b.d_len, Rule::CompleteSingleOrEmpty, "distance")
                    .map_err(Fail::Bad)?;
                b.body_start = r.pos;
                self.codes(&mut r, &lt, &dt, &mut b)?;
            }
            _ => return Err(Fail::Bad("reserved block type".into())),
        }
        b.out_end = self.out.len();
        b.m_end = self.matches.len();
        Ok(b)
    }

    fn codes(&mut self, r: &mut Bits, lt: &Table, dt: &Table, b: &mut Block) -> Result<(), Fail> {
        let mut lf = [0u32; 288];
        let mut df = [0u32; 32];
        loop {
            let s = r.sym(lt)?;
            lf[s] += 1;
            if s < 256 {
                self.out.push(s as u8);
            } else if s == 256 {
                break;
            } else {
                if s > 285 {
                    return Err(Fail::Bad("reserved length symbol".into()));
                }
                let len = usize::from(LBASE[s - 257]) + r.take(u32::from(LEXT[s - 257]))? as usize;
                if s == 284 && len == 258 {
                    // Valid per the RFC's table but an alternative spelling some decoders reject.
                    return Err(Fail::Bad("length 258 coded with symbol 284".into()));
                }
                let d = r.sym(dt)?;
                if d > 29 {
                    return Err(Fail::Bad("reserved distance symbol".into()));
                }
                df[d] += 1;
                let dist = usize::from(DBASE[d]) + r.take(u32::from(DEXT[d]))? as usize;
                if dist > self.out.len() {
                    return Err(Fail::Bad(format!(
                        "distance {} too far back at {}",
                        dist,
                        self.out.len()
                    )));
                }
                self.matches.push(Match {
                    pos: self.out.len() as u32,
                    len: len as u16,
                    dist: dist as u16,
                });
                let st = self.out.len() - dist;
                if dist >= len {
                    self.out.extend_from_within(st..st + len);
                } else {
                    for i in 0..len {
                        let c = self.out[st + i];
                        self.out.push(c);
                    }
                }
            }
        }
        b.bit_end = r.pos;
        b.ll_freq = lf.to_vec();
        b.d_freq = df.to_vec();
        Ok(())
    }
}

pub struct Decoded {
    pub inf: Inflater,
    /// Length of the header and trailer of the container.
    pub head: usize,
    pub tail: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, serde::Serialize, serde::Deserialize)]
pub enum Fmt {
    Raw,
    Zlib,
    Gzip,
}

/// Length of a zlib header at the start of the data. None: incomplete.
pub fn zlib_header(d: &[u8]) -> Result<Option<usize>, String> {
    if d.is_empty() {
        return Ok(None);
    }
    if d[0] & 15 != 8 {
        return Err(format!("zlib compression method {}", d[0] & 15));
    }
    if d[0] >> 4 > 7 {
        return Err(format!("zlib window size field {}", d[0] >> 4));
    }
    if d.len() < 2 {
        return Ok(None);
    }
    if (u32::from(d[0]) * 256 + u32::from(d[1])) % 31 != 0 {
        return Err("zlib header check".into());
    }
    if d[1] & 0x20 != 0 {
        return Err("zlib preset dictionary flag".into());
    }
    Ok(Some(2))
}

#[derive(Default, Debug, PartialEq, Clone)]
pub struct GzHead {
    pub mtime: u32,
    pub xfl: u8,
    pub os: u8,
    pub extra: Option<Vec<u8>>,
    pub name: Option<Vec<u8>>,
    pub comment: Option<Vec<u8>>,
    pub len: usize,
}

pub fn gzip_header(d: &[u8]) -> Result<Option<GzHead>, String> {
    for (i, m) in [0x1f, 0x8b, 8].iter().enumerate() {
        if d.len() > i && d[i] != *m {
            return Err("gzip magic/method".into());
        }
    }
    if d.len() > 3 && d[3] & 0xe0 != 0 {
        return Err("gzip reserved flags".into());
    }
    if d.len() < 10 {
        return Ok(None);
    }
    let mut h = GzHead {
        mtime: u32::from_le_bytes([d[4], d[5], d[6], d[7]]),
        xfl: d[8],
        os: d[9],
        ..GzHead::default()
    };
    let mut p = 10;
    if d[3] & 4 != 0 {
        if d.len() < p + 2 {
            return Ok(None);
        }
        let n = usize::from(d[p]) + 256 * usize::from(d[p + 1]);
        p += 2;
        if d.len() < p + n {
            return Ok(None);
        }
        h.extra = Some(d[p..p + n].to_vec());
        p += n;
    }
    for (flag, which) in [(8, 0), (16, 1)] {
        if d[3] & flag != 0 {
            let n = match d[p..].iter().position(|&c| c == 0) {
                Some(n) => n,
                None => return Ok(None),
            };
            let v = Some(d[p..p + n].to_vec());
            if which == 0 {
                h.name = v
            } else {
                h.comment = v
            }
            p += n + 1;
        }
    }
    if d[3] & 2 != 0 {
        if d.len() < p + 2 {
            return Ok(None);
        }
        let c = crc32(&d[..p]) as u16;
        if c.to_le_bytes() != d[p..p + 2] {
            return Err("gzip header CRC".into());
        }
        p += 2;
    }
    h.len = p;
    Ok(Some(h))
}

/// Strictly decode one complete stream which has to span all the data.
pub fn decode(fmt: Fmt, d: &[u8]) -> Result<Decoded, String> {
    let head = match fmt {
        Fmt::Raw => 0,
        Fmt::Zlib => zlib_header(d)?.ok_or("truncated zlib header")?,
        Fmt::Gzip => gzip_header(d)?.ok_or("truncated gzip header")?.len,
    };
    let mut inf = Inflater::new();
    match inf.run(&d[head..]) {
        Stop::Done => (),
        Stop::Truncated => {
            return Err(format!(
                "stream is incomplete: no final block ({} blocks, {} bytes decoded)",
                inf.blocks.len(),
                inf.out.len()
            ))
        }
        Stop::Invalid(e) => return Err(format!("invalid stream: {}", e)),
    }
    let end = head + ((inf.bitpos + 7) / 8) as usize;
    let tail = match fmt {
        Fmt::Raw => 0,
        Fmt::Zlib => 4,
        Fmt::Gzip => 8,
    };
    if d.len() < end + tail {
        return Err(format!("trailer is incomplete ({} bytes)", d.len() - end));
    }
    if d.len() > end + tail {
        return Err(format!(
            "{} bytes after the end of the stream",
            d.len() - end - tail
        ));
    }
    let t = &d[end..];
    match fmt {
        Fmt::Raw => (),
        Fmt::Zlib => {
            let window = 1u32 << (8 + (d[0] >> 4));
            if inf.matches.iter().any(|m| u32::from(m.dist) > window) {
                return Err(format!("distance beyond the zlib window size {}", window));
            }
            let a = adler32(&inf.out);
            if t != a.to_be_bytes() {
                return Err(format!("Adler-32 is {:02x?}, data has {:08x}", t, a));
            }
        }
        Fmt::Gzip => {
            let c = crc32(&inf.out);
            if t[..4] != c.to_le_bytes() {
                return Err(format!("CRC-32 is {:02x?} (LE), data has {:08x}", &t[..4], c));
            }
            if t[4..] != (inf.out.len() as u32).to_le_bytes() {
                return Err(format!("ISIZE is {:02x?} (LE), data has {}", &t[4..], inf.out.len()));
            }
        }
    }
    Ok(Decoded { inf, head, tail })
}

/// Check that the data is a prefix of a valid stream, decoding what is there.
/// Returns the decoded data, and whether the data is a complete stream.
pub fn decode_prefix(fmt: Fmt, d: &[u8]) -> Result<(Inflater, bool), String> {
    let head = match fmt {
        Fmt::Raw => Some(0),
        Fmt::Zlib => zlib_header(d)?,
        Fmt::Gzip => gzip_header(d)?.map(|h| h.len),
    };
    let mut inf = Inflater::new();
    let head = match head {
        Some(h) => h,
        None => return Ok((inf, false)),
    };
    match inf.run(&d[head..]) {
        Stop::Done => (),
        Stop::Truncated => return Ok((inf, false)),
        Stop::Invalid(e) => return Err(format!("invalid stream: {}", e)),
    }
    let end = head + ((inf.bitpos + 7) / 8) as usize;
    let t = &d[end..];
    let want: Vec<u8> = match fmt {
        Fmt::Raw => vec![],
        Fmt::Zlib => adler32(&inf.out).to_be_bytes().to_vec(),
        Fmt::Gzip => {
            let mut v = crc32(&inf.out).to_le_bytes().to_vec();
            v.extend_from_slice(&(inf.out.len() as u32).to_le_bytes());
            v
        }
    };
    if t.len() > want.len() {
        return Err(format!("{} bytes after the end", t.len() - want.len()));
    }
    if t != &want[..t.len()] {
        return Err(format!("trailer {:02x?} instead of {:02x?}", t, want));
    }
    let complete = t.len() == want.len();
    Ok((inf, complete))
}

pub fn adler32(d: &[u8]) -> u32 {
    adler32_add(1, d)
}

pub fn adler32_add(start: u32, d: &[u8]) -> u32 {
    let (mut a, mut b) = (start & 0xffff, start >> 16);
    for c in d.chunks(5552) {
        for &x in c {
            a += u32::from(x);
            b += a;
        }
        a %= 65521;
        b %= 65521;
    }
    b << 16 | a
}

fn crc_tables() -> &'static [[u32; 256]; 8] {
    static T: std::sync::OnceLock<Box<[[u32; 256]; 8]>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = Box::new([[0u32; 256]; 8]);
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 {
                c = if c & 1 != 0 { 0xedb8_8320 ^ (c >> 1) } else { c >> 1 };
            }
            t[0][i as usize] = c;
        }
        for i in 0..256 {
            for k in 1..8 {
                let p = t[k - 1][i];
                t[k][i] = t[0][(p & 255) as usize] ^ (p >> 8);
            }
        }
        t
    })
}

pub fn crc32(d: &[u8]) -> u32 {
    crc32_add(0, d)
}

pub fn crc32_add(start: u32, d: &[u8]) -> u32 {
    let t = crc_tables();
    let mut c = !start;
    let mut it = d.chunks_exact(8);
    for q in &mut it {
        let lo = u32::from_le_bytes([q[0], q[1], q[2], q[3]]) ^ c;
        c = t[7][(lo & 255) as usize]
            ^ t[6][(lo >> 8 & 255) as usize]
            ^ t[5][(lo >> 16 & 255) as usize]
            ^ t[4][(lo >> 24) as usize]
            ^ t[3][q[4] as usize]
            ^ t[2][q[5] as usize]
            ^ t[1][q[6] as usize]
            ^ t[0][q[7] as usize];
    }
    for &x in it.remainder() {
        c = t[0][((c ^ u32::from(x)) & 255) as usize] ^ (c >> 8);
    }
    !c
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn sums() {
        assert_eq!(crc32(b"123456789"), 0xcbf4_3926);
        assert_eq!(adler32(b"Wikipedia"), 0x11e6_0398);
    }
}
