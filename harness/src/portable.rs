//! C16: the same on targets with 32-bit pointers. The 32-bit build of the library (WebAssembly, see
//! /verif/harness32) runs in node; the same request goes to it and to the library built for this machine.

use crate::core::*;
use crate::gen::*;
use crate::inflate::Fmt;
use crate::lossless::*;
use crate::runner::*;
use crate::{arm, exec32::exec};
use deflate::{MatchingType, SpecialOptions};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::Duration;

struct Node {
    child: Child,
    input: ChildStdin,
    answers: Receiver<(u8, Vec<u8>)>,
}

impl Node {
    fn start() -> Node {
        let base = concat!(env!("CARGO_MANIFEST_DIR"), "/../");
        let mut child = Command::new("node")
            .arg(format!("{}harness32/serve.js", base))
            .arg(format!("{}target/vh32.wasm", base))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("starting node");
        let input = child.stdin.take().unwrap();
        let mut out = child.stdout.take().unwrap();
        let (tx, answers) = channel();
        std::thread::spawn(move || loop {
            let mut h = [0u8; 5];
            if out.read_exact(&mut h).is_err() {
                return;
            }
            let mut v = vec![0u8; u32::from_le_bytes([h[1], h[2], h[3], h[4]]) as usize];
            if out.read_exact(&mut v).is_err() || tx.send((h[0], v)).is_err() {
                return;
            }
        });
        Node { child, input, answers }
    }
    fn ask(&mut self, req: &[u8], secs: u64) -> Option<(u8, Vec<u8>)> {
        self.input.write_all(&(req.len() as u32).to_le_bytes()).ok()?;
        self.input.write_all(req).ok()?;
        self.answers.recv_timeout(Duration::from_secs(secs)).ok()
    }
}

impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local!(static NODE: RefCell<Option<Node>> = const { RefCell::new(None) });

/// What the 32-bit build answers; Err: it panicked.
fn ask32(req: &[u8], secs: u64) -> Result<Vec<u8>, String> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        match n.get_or_insert_with(Node::start).ask(req, secs) {
            Some((0, v)) => Ok(v),
            Some((_, m)) => Err(String::from_utf8_lossy(&m).into_owned()),
            None => {
                let mut dead = n.take().unwrap();
                match dead.child.try_wait() {
                    // A failure of the machinery, not of the library.
                    Ok(Some(s)) => {
                        eprintln!("node ended: {}", s);
                        std::process::exit(4);
                    }
                    _ => Err(format!("no answer within {} s", secs)),
                }
            }
        }
    })
}

fn put(v: &mut Vec<u8>, n: usize) {
    v.extend_from_slice(&(n as u32).to_le_bytes());
}

fn head(fmt: Fmt, opts: Opts, one_shot: bool, end: End, max: u32, repeat: u32, streams: usize) -> Vec<u8> {
    let o = opts.get();
    let mut v = vec![match fmt {
        Fmt::Raw => 0,
        Fmt::Zlib => 1,
        Fmt::Gzip => 2,
    }];
    v.extend_from_slice(&o.max_hash_checks.to_le_bytes());
    v.extend_from_slice(&o.lazy_if_less_than.to_le_bytes());
    v.push(matches!(o.matching_type, MatchingType::Lazy) as u8);
    v.push(match o.special {
        SpecialOptions::Normal => 0,
        SpecialOptions::_ForceFixed => 1,
        SpecialOptions::_ForceStored => 2,
    });
    v.push(one_shot as u8);
    v.push(matches!(end, End::Drop) as u8);
    put(&mut v, max as usize);
    put(&mut v, repeat as usize);
    put(&mut v, streams);
    v
}

fn stream(v: &mut Vec<u8>, steps: &[Step], data: &[u8]) {
    put(v, steps.len());
    for s in steps {
        match *s {
            Step::Write(a, b) => {
                v.push(0);
                put(v, b - a);
            }
            Step::Flush => {
                v.push(1);
                put(v, 0);
            }
        }
    }
    put(v, data.len());
    v.extend_from_slice(data);
}

/// Both answers have to be the same. None: it panics on both.
fn compare(req: &[u8], secs: u64) -> Result<Option<Vec<u8>>, String> {
    let here = guard("64 bits", || exec(req));
    let there = ask32(req, secs);
    match (here, there) {
        (Ok(a), Ok(b)) if a == b => Ok(Some(a)),
        (Ok(a), Ok(b)) => Err(format!("with 32-bit pointers, results differ from those with 64 bits: {}", diff(&b, &a))),
        (Err(_), Err(_)) => Ok(None),
        (Ok(_), Err(m)) => Err(format!("with 32-bit pointers: {}", m)),
        (Err(m), Ok(_)) => Err(format!("only with 64-bit pointers: {}", m)),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C16 {
    pub h: Hist,
    /// Bytes the sink accepts per call; 0: all.
    pub max: u32,
    pub one_shot: bool,
}

fn c16(c: &C16) -> Res {
    let h = &c.h;
    let data = expand(&h.data, CAP);
    let steps = plan(&h.ops, data.len());
    let mut o = Obs::one(data.len() > 100);
    let mut req;
    if c.one_shot {
        req = head(h.fmt, h.opts, true, h.end, 0, 1, 1);
        put(&mut req, data.len());
        req.extend_from_slice(&data);
        o.class("one-shot");
    } else {
        req = head(h.fmt, h.opts, false, h.end, c.max, 1, 1 + h.pre.len());
        for p in &h.pre {
            let d = expand(&p.data, 100_000);
            stream(&mut req, &plan(&p.ops, d.len()), &d);
        }
        stream(&mut req, &steps, &data);
        hist_classes(&mut o, &steps);
        o.class_if(!h.pre.is_empty(), "reset");
        o.class_if(c.max > 0, "piecemeal sink");
    }
    let r = compare(&req, 60)?;
    o.class_if(r.is_none(), "panics with 64 bits as well");
    o.class_if(data.len() > 32768, "more than a window");
    o.class(format!("{:?}", h.fmt));
    o.class(h.opts.class());
    o.note = format!("{} bytes, {} calls, {} bytes of results", data.len(), steps.len(), r.map_or(0, |r| r.len()));
    Ok(o)
}

fn c16_strategy() -> BoxedStrategy<C16> {
    let max = prop_oneof![3 => Just(0u32), 1 => 1u32..2000, 1 => 2000u32..70_000];
    let h = prop_oneof![
        6 => warm(hist(150_000, 2)),
        2 => warm(edge_hist()),
        1 => late_block(),
        2 => (fmt(), prop_oneof![2 => Just(Opts::Preset(3)), 1 => opts()], skew(), end())
            .prop_map(|(fmt, opts, data, end)| Hist { fmt, opts, gz: GzRec::default(), data, ops: vec![], end, pre: vec![] }),
    ];
    (h, max, proptest::bool::weighted(0.2)).prop_map(|(h, max, one_shot)| C16 { h, max, one_shot }).boxed()
}

/// Beyond what 32 bits can count.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Beyond {
    pub fmt: Fmt,
    pub opts: Opts,
    pub piece: u32,
    pub repeat: u32,
}

fn c16_long(c: &Beyond) -> Res {
    let data: Vec<u8> = (0..c.piece).map(|i| (i >> 15) as u8 ^ 0x5c).collect();
    let mut req = head(c.fmt, c.opts, false, End::Finish, 0, c.repeat, 1);
    stream(&mut req, &[Step::Write(0, data.len())], &data);
    let r = compare(&req, 600)?;
    let mut o = Obs::one(true);
    let total = u64::from(c.piece) * u64::from(c.repeat);
    o.class(if total > u64::from(u32::MAX) { "beyond 4 GiB" } else { "tens of MiB" });
    o.note = format!("{} bytes, {} bytes of results", total, r.map_or(0, |r| r.len()));
    Ok(o)
}

fn c16_long_list(thorough: bool) -> Vec<Beyond> {
    let rle = Opts::Preset(4);
    let mut v = vec![
        Beyond { fmt: Fmt::Gzip, opts: rle, piece: 1 << 22, repeat: 1025 },
        Beyond { fmt: Fmt::Zlib, opts: Opts::Preset(1), piece: 1_234_567, repeat: 30 },
        Beyond { fmt: Fmt::Raw, opts: Opts::Preset(0), piece: 100_001, repeat: 400 },
    ];
    if thorough {
        v.push(Beyond { fmt: Fmt::Raw, opts: rle, piece: 3_000_001, repeat: 1500 });
        v.push(Beyond { fmt: Fmt::Zlib, opts: rle, piece: 40_000_003, repeat: 120 });
        v.push(Beyond { fmt: Fmt::Zlib, opts: Opts::Preset(0), piece: 1 << 22, repeat: 1100 });
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        rule: "the histories of C01, C02, C05 and C07 (one-shot calls, writes, flushes, resets, piecemeal sinks) carried out by the library built for 32-bit and for 64-bit pointers, one of them beyond 4 GiB; non-trivial: more than 100 bytes of data",
        arms: vec![
            arm!("long", Source::List(c16_long_list), c16_long),
            arm!("random", Source::Gen(c16_strategy, 12_000, 200_000), c16),
        ],
    }]
}
