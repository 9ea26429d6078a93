//! Coverage-guided search: recipes are mutated and recombined as JSON values, those reaching new
//! coverage (edge counters of the library and the harness) are kept and mutated further.
//!
//! One process per worker, single-threaded. Values never leave the range the generators use at the
//! same place of a recipe.

use crate::gen::Rng;
use crate::runner::{Params, Prop};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static REGIONS: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(a: usize, b: usize) {
    let mut r = REGIONS.lock().unwrap();
    if b > a && !r.contains(&(a, b)) {
        r.push((a, b));
    }
}

struct Coverage {
    regions: Vec<(*mut u8, usize)>,
    seen: Vec<u8>,
}

impl Coverage {
    fn new() -> Coverage {
        let regions: Vec<(*mut u8, usize)> = REGIONS.lock().unwrap().iter().map(|&(a, b)| (a as *mut u8, b - a)).collect();
        let n = regions.iter().map(|r| r.1).sum();
        Coverage { regions, seen: vec![0; n] }
    }
    fn clear(&mut self) {
        for &(p, n) in &self.regions {
            unsafe { std::ptr::write_bytes(p, 0, n) }
        }
    }
    /// How many edge/count-range pairs were never seen before.
    fn news(&mut self) -> usize {
        let mut news = 0;
        let mut i = 0;
        for &(p, n) in &self.regions {
            for k in 0..n {
                let c = unsafe { std::ptr::read(p.add(k)) };
                if c != 0 {
                    let bit = match c {
                        1 => 1u8,
                        2 => 2,
                        3 => 4,
                        4..=7 => 8,
                        8..=15 => 16,
                        16..=31 => 32,
                        32..=127 => 64,
                        _ => 128,
                    };
                    if self.seen[i] & bit == 0 {
                        self.seen[i] |= bit;
                        news += 1;
                    }
                }
                i += 1;
            }
        }
        news
    }
    fn edges(&self) -> usize {
        self.seen.iter().filter(|x| **x != 0).count()
    }
}

/// What generators put at each kind of place.
#[derive(Default)]
struct Place {
    samples: Vec<Value>,
    seen: usize,
    range: Option<(i128, i128)>,
    lens: Option<(usize, usize)>,
}

type Places = HashMap<String, Place>;

fn int(v: &Value) -> Option<i128> {
    v.as_i64().map(i128::from).or_else(|| v.as_u64().map(i128::from))
}

fn learn(places: &mut Places, key: &str, v: &Value, rng: &mut Rng, keep: usize) {
    let p = places.entry(key.to_string()).or_default();
    p.seen += 1;
    if p.samples.len() < keep {
        p.samples.push(v.clone());
    } else {
        let i = rng.next() as usize % p.seen;
        if i < keep {
            p.samples[i] = v.clone();
        }
    }
    if let Some(n) = int(v) {
        let r = p.range.get_or_insert((n, n));
        *r = (r.0.min(n), r.1.max(n));
    }
    match v {
        Value::Array(a) => {
            let l = p.lens.get_or_insert((a.len(), a.len()));
            *l = (l.0.min(a.len()), l.1.max(a.len()));
            for x in a {
                learn(places, &format!("{}[]", key), x, rng, keep);
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                learn(places, &format!("{}.{}", key, k), x, rng, keep);
            }
        }
        _ => (),
    }
}

/// Paths of all nodes (collapsed key, JSON pointer). Elements of long arrays are represented by a few.
fn nodes(key: &str, ptr: &str, v: &Value, rng: &mut Rng, out: &mut Vec<(String, String)>) {
    out.push((key.to_string(), ptr.to_string()));
    match v {
        Value::Array(a) => {
            let few = a.len() > 12;
            for (i, x) in a.iter().enumerate() {
                if few && rng.next() as usize % a.len() > 8 {
                    continue;
                }
                nodes(&format!("{}[]", key), &format!("{}/{}", ptr, i), x, rng, out);
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                nodes(&format!("{}.{}", key, k), &format!("{}/{}", ptr, k), x, rng, out);
            }
        }
        _ => (),
    }
}

fn mutate(v: &mut Value, places: &Places, rng: &mut Rng) {
    let mut ns = vec![];
    nodes("", "", v, rng, &mut ns);
    let (key, ptr) = ns[rng.next() as usize % ns.len()].clone();
    let place = match places.get(&key) {
        Some(p) => p,
        None => return,
    };
    let node = match v.pointer_mut(&ptr) {
        Some(n) => n,
        None => return,
    };
    let r = rng.next() % 10;
    if let (Some(n), Some((lo, hi))) = (int(node), place.range) {
        let m = match r {
            0..=3 => int(&place.samples[rng.next() as usize % place.samples.len()]).unwrap_or(n),
            4..=7 => n + (rng.next() % 17) as i128 - 8,
            8 => n + (rng.next() % 801) as i128 - 400,
            _ => lo + (rng.next() as i128) % (hi - lo + 1),
        };
        let m = m.clamp(lo, hi);
        *node = if m < 0 { json!(m as i64) } else { json!(m as u64) };
        return;
    }
    if let (Value::Array(a), Some((lo, hi))) = (&mut *node, place.lens) {
        if lo < hi && r < 8 {
            let elem = places.get(&format!("{}[]", key));
            let n = a.len();
            match r {
                0 | 1 if n > lo => {
                    a.remove(rng.next() as usize % n);
                }
                2 if n > 0 && n < hi => {
                    let x = a[rng.next() as usize % n].clone();
                    a.insert(rng.next() as usize % (n + 1), x);
                }
                3..=5 if n < hi && elem.is_some() => {
                    let e = &elem.unwrap().samples;
                    a.insert(rng.next() as usize % (n + 1), e[rng.next() as usize % e.len()].clone());
                }
                6 if n > 1 => {
                    let (i, j) = (rng.next() as usize % n, rng.next() as usize % n);
                    a.swap(i, j);
                }
                _ => {
                    // The tail of another one.
                    if let Value::Array(b) = &place.samples[rng.next() as usize % place.samples.len()] {
                        let cut = rng.next() as usize % (n + 1);
                        a.truncate(cut);
                        a.extend(b.iter().skip(cut).cloned());
                        a.truncate(hi);
                    }
                }
            }
            return;
        }
    }
    if !key.is_empty() {
        *node = place.samples[rng.next() as usize % place.samples.len()].clone();
    }
}

/// A panic in the harness, because the mutated recipe made no sense to it.
fn harness_fault(e: &str) -> bool {
    e.starts_with("bad replay file") || e.contains(" at src/") && !e.contains("livelock") && !e.contains("(injected)")
}

/// Smaller recipes which still fail.
fn shrink(v: Value, fails: &dyn Fn(&Value) -> bool, places: &Places) -> Value {
    let end = Instant::now() + Duration::from_secs(30);
    let mut v = v;
    loop {
        let mut better = None;
        let mut ns = vec![];
        all_nodes("", "", &v, &mut ns);
        'search: for (key, ptr) in &ns {
            let node = match v.pointer(ptr) {
                Some(n) => n.clone(),
                None => continue,
            };
            let mut tries: Vec<Value> = vec![];
            let place = places.get(key);
            if let Value::Array(a) = &node {
                if place.and_then(|p| p.lens).map_or(false, |l| l.0 < l.1) {
                    let mut step = a.len();
                    while step > 0 {
                        for i in (0..a.len()).step_by(step) {
                            let mut b = a.clone();
                            b.drain(i..(i + step).min(a.len()));
                            tries.push(Value::Array(b));
                        }
                        step /= 2;
                    }
                    tries.truncate(60);
                }
            }
            if let (Some(n), Some((lo, _))) = (int(&node), place.and_then(|p| p.range)) {
                let base = lo.max(0).min(n);
                for m in [base, base + (n - base) / 2, n - (n - base) / 8, n - 1] {
                    if m < n && m >= base {
                        tries.push(json!(m as i64));
                    }
                }
            }
            for t in tries {
                if Instant::now() > end {
                    return v;
                }
                let mut w = v.clone();
                if let Some(n) = w.pointer_mut(ptr) {
                    *n = t;
                }
                if w != v && fails(&w) {
                    better = Some(w);
                    break 'search;
                }
            }
        }
        match better {
            Some(w) => v = w,
            None => return v,
        }
    }
}

fn all_nodes(key: &str, ptr: &str, v: &Value, out: &mut Vec<(String, String)>) {
    out.push((key.to_string(), ptr.to_string()));
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                all_nodes(&format!("{}[]", key), &format!("{}/{}", ptr, i), x, out);
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                all_nodes(&format!("{}.{}", key, k), &format!("{}/{}", ptr, k), x, out);
            }
        }
        _ => (),
    }
}

struct Entry {
    v: Value,
    us: u64,
}

pub fn run(p: Prop, params: Params, worker: u64, cases: u64) -> i32 {
    let _ = std::fs::create_dir_all(&params.work);
    let start = Instant::now();
    let budget = Duration::from_secs(params.budget);
    static BUSY: AtomicU64 = AtomicU64::new(0);
    let current = format!("{}/current-0.json", params.work);
    let stuck = current.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let b = BUSY.load(SeqCst);
        if b != 0 && start.elapsed().as_millis() as u64 + 1 > b + 150_000 {
            println!("STUCK {}", stuck);
            std::process::exit(3);
        }
    });
    let mut arms = Map::new();
    let mut failures = vec![];
    let mut late = false;
    let gen: Vec<usize> = (0..p.arms.len())
        .filter(|&i| !p.arms[i].listed() && params.only.as_deref().map_or(true, |o| o == p.arms[i].name()))
        .collect();
    'arms: for (k, &ai) in gen.iter().enumerate() {
        let arm = &p.arms[ai];
        let mut rng = Rng(params.seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (worker << 20) ^ ai as u64);
        let share = cases / gen.len() as u64;
        let first = (share / 5).clamp(20, 600) as usize;
        let samples = arm.samples(first, rng.next());
        let mut places = Places::new();
        for v in &samples {
            learn(&mut places, "", v, &mut rng, 60);
        }
        let mut cov = Coverage::new();
        let mut corpus: Vec<Entry> = vec![];
        let mut queue = samples.into_iter();
        let (mut done, mut nontrivial, mut invalid) = (0u64, 0u64, 0u64);
        let mut slowest = 0;
        let mut classes: std::collections::BTreeMap<String, u64> = Default::default();
        let mut seen = std::collections::HashSet::new();
        let limit = budget.mul_f64((k + 1) as f64 / gen.len() as f64);
        while done + invalid < share {
            if start.elapsed() > limit {
                late = true;
                break;
            }
            let v = match queue.next() {
                Some(v) => v,
                None => {
                    if corpus.is_empty() {
                        break;
                    }
                    let n = corpus.len();
                    // Newer and faster ones are preferred.
                    let mut pick = || if rng.next() % 3 == 0 { n - 1 - rng.next() as usize % n.min(30) } else { rng.next() as usize % n };
                    let (a, b) = (pick(), pick());
                    let i = if corpus[a].us <= corpus[b].us * 2 { a } else { b };
                    let mut v = corpus[i].v.clone();
                    for _ in 0..1 + rng.next() % 3 {
                        mutate(&mut v, &places, &mut rng);
                    }
                    v
                }
            };
            let js = serde_json::to_string(&v).unwrap();
            let _ = std::fs::write(&current, format!("{{\"property\":\"{}\",\"arm\":\"{}\",\"case\":{}}}", p.id, arm.name(), js));
            cov.clear();
            let t = Instant::now();
            BUSY.store(start.elapsed().as_millis() as u64 + 1, SeqCst);
            let r = arm.replay(&v);
            BUSY.store(0, SeqCst);
            let us = t.elapsed().as_micros() as u64;
            match r {
                Ok(o) => {
                    let news = cov.news();
                    done += 1;
                    slowest = slowest.max(us / 1000);
                    for c in o.classes {
                        *classes.entry(c).or_insert(0u64) += 1;
                    }
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    js.hash(&mut h);
                    if o.nontrivial > 0 && seen.insert(h.finish()) {
                        nontrivial += o.nontrivial;
                    }
                    if news > 0 {
                        corpus.push(Entry { v, us });
                    }
                }
                Err(e) if harness_fault(&e) => invalid += 1,
                Err(e) => {
                    let fails = |w: &Value| matches!(arm.replay(w), Err(e) if !harness_fault(&e));
                    let small = shrink(v, &fails, &places);
                    let msg = match arm.replay(&small) {
                        Err(m) => m,
                        Ok(_) => format!("(not reproduced when run again) {}", e),
                    };
                    failures.push(json!({"property": p.id, "arm": arm.name(), "case": small, "message": msg, "message_before_shrinking": e}));
                    break 'arms;
                }
            }
        }
        arms.insert(
            arm.name().to_string(),
            json!({"listed": false, "cases": done, "evaluations": done, "distinct_nontrivial": nontrivial, "classes": classes, "samples": [],
                   "slowest_case_ms": slowest, "corpus": corpus.len(), "edges": cov.edges(), "not_meaningful": invalid}),
        );
    }
    let bad = !failures.is_empty();
    let out = json!({"property": p.id, "rule": p.rule, "arms": arms, "failures": failures, "budget_hit": late, "wall_s": start.elapsed().as_secs_f64()});
    std::fs::write(&params.out, serde_json::to_string_pretty(&out).unwrap()).expect("stats");
    i32::from(bad)
}
