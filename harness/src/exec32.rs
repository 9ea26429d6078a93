//! One request carried out on the library, both in the harness and in the 32-bit build of it.
//! The request and the answer are plain bytes; nothing here depends on the size of a pointer.

use deflate::write::{DeflateEncoder, GzEncoder, ZlibEncoder};
use deflate::{CompressionOptions, MatchingType, SpecialOptions};
use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn bytes(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u8(&mut self) -> u8 {
        self.bytes(1)[0]
    }
    fn u16(&mut self) -> u16 {
        let b = self.bytes(2);
        u16::from(b[0]) | u16::from(b[1]) << 8
    }
    fn u32(&mut self) -> u32 {
        u32::from(self.u16()) | u32::from(self.u16()) << 16
    }
}

/// Accepts at most `max` bytes per call (0: everything).
#[derive(Clone)]
struct Out {
    got: Rc<RefCell<Vec<u8>>>,
    max: usize,
}
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = if self.max == 0 { b.len() } else { b.len().min(self.max) };
        self.got.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// The operating system in the header is not the same on all targets by default.
fn gz() -> gzip_header::GzBuilder {
    gzip_header::GzBuilder::new().os(gzip_header::FileSystemType::Unknown)
}

enum E {
    D(DeflateEncoder<Out>),
    Z(ZlibEncoder<Out>),
    G(GzEncoder<Out>),
}
impl E {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match self {
            E::D(e) => e.write(b),
            E::Z(e) => e.write(b),
            E::G(e) => e.write(b),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        match self {
            E::D(e) => e.flush(),
            E::Z(e) => e.flush(),
            E::G(e) => e.flush(),
        }
    }
    fn reset(&mut self, w: Out) -> io::Result<Out> {
        match self {
            E::D(e) => e.reset(w),
            E::Z(e) => e.reset(w),
            E::G(e) => e.reset_with_builder(w, gz()),
        }
    }
    fn finish(self) -> io::Result<Out> {
        match self {
            E::D(e) => e.finish(),
            E::Z(e) => e.finish(),
            E::G(e) => e.finish(),
        }
    }
    fn checksum(&self) -> u32 {
        match self {
            E::D(_) => 0,
            E::Z(e) => e.checksum(),
            E::G(e) => e.checksum(),
        }
    }
}

/// Everything observable, in a row: what each call returned, and the bytes each sink received.
pub fn exec(req: &[u8]) -> Vec<u8> {
    let mut r = Rd(req);
    let fmt = r.u8();
    let opts = CompressionOptions {
        max_hash_checks: r.u16(),
        lazy_if_less_than: r.u16(),
        matching_type: if r.u8() == 0 { MatchingType::Greedy } else { MatchingType::Lazy },
        special: match r.u8() {
            0 => SpecialOptions::Normal,
            1 => SpecialOptions::_ForceFixed,
            _ => SpecialOptions::_ForceStored,
        },
    };
    let one_shot = r.u8() != 0;
    let drop_at_end = r.u8() != 0;
    let max = r.u32() as usize;
    let repeat = r.u32();
    let streams = r.u32();
    let mut ans = vec![];
    if one_shot {
        let n = r.u32() as usize;
        let d = r.bytes(n);
        let out = match fmt {
            0 => deflate::deflate_bytes_conf(d, opts),
            1 => deflate::deflate_bytes_zlib_conf(d, opts),
            _ => deflate::deflate_bytes_gzip_conf(d, opts, gz()),
        };
        ans.extend_from_slice(&out);
        return ans;
    }
    let new = || Out { got: Rc::new(RefCell::new(vec![])), max };
    let mut out = new();
    let mut e = match fmt {
        0 => E::D(DeflateEncoder::new(out.clone(), opts)),
        1 => E::Z(ZlibEncoder::new(out.clone(), opts)),
        _ => E::G(GzEncoder::from_builder(gz(), out.clone(), opts)),
    };
    let deliver = |ans: &mut Vec<u8>, o: &Out| {
        let g = o.got.borrow();
        ans.extend_from_slice(b"STREAM");
        ans.extend_from_slice(&(g.len() as u64).to_le_bytes());
        ans.extend_from_slice(&g);
    };
    let outcome = |ans: &mut Vec<u8>, ok: bool, n: usize| {
        ans.push(ok as u8);
        ans.extend_from_slice(&(n as u64).to_le_bytes());
    };
    for s in 0..streams {
        if s > 0 {
            let next = new();
            let res = e.reset(next.clone());
            outcome(&mut ans, res.is_ok(), 0);
            deliver(&mut ans, &out);
            out = next;
        }
        let n = r.u32() as usize;
        let mut steps = vec![];
        for _ in 0..n {
            steps.push((r.u8(), r.u32() as usize));
        }
        let n = r.u32() as usize;
        let data = r.bytes(n);
        for _ in 0..if s + 1 == streams { repeat.max(1) } else { 1 } {
            let mut p = 0;
            for &(kind, len) in &steps {
                if kind == 1 {
                    let ok = e.flush().is_ok();
                    outcome(&mut ans, ok, 0);
                    continue;
                }
                let end = p + len;
                let mut tries = 0u32;
                loop {
                    let res = e.write(&data[p..end]);
                    // How much a call consumes, and so the number of calls it takes, depends on how much output there
                    // is, which differs by what is still in the accumulator of bits.
                    if matches!(&res, Err(e) if e.kind() != io::ErrorKind::Interrupted) {
                        outcome(&mut ans, false, 0);
                    }
                    match res {
                        Ok(n) => {
                            p += n;
                            tries = 0;
                        }
                        Err(_) => tries += 1,
                    }
                    if p >= end || tries > 100_000 {
                        break;
                    }
                }
                p = end;
            }
            ans.extend_from_slice(&e.checksum().to_le_bytes());
        }
    }
    let ok = if drop_at_end {
        drop(e);
        true
    } else {
        e.finish().is_ok()
    };
    outcome(&mut ans, ok, 0);
    deliver(&mut ans, &out);
    ans
}
