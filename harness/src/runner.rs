//! Sharded, seeded execution of arms; statistics; current-case files; replay.

use crate::core::{guard, last_panic};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What a check observed about one case.
#[derive(Default)]
pub struct Obs {
    /// Inputs evaluated within this case (1 unless the case enumerates a batch).
    pub evals: u64,
    /// How many of them were non-trivial by the property's rule.
    pub nontrivial: u64,
    pub classes: Vec<String>,
    pub note: String,
}

impl Obs {
    pub fn one(nontrivial: bool) -> Obs {
        Obs { evals: 1, nontrivial: nontrivial as u64, ..Obs::default() }
    }
    pub fn class(&mut self, s: impl Into<String>) {
        self.classes.push(s.into())
    }
    pub fn class_if(&mut self, c: bool, s: &str) {
        if c {
            self.class(s)
        }
    }
}

pub type Res = Result<Obs, String>;

pub enum Source<T> {
    Gen(fn() -> BoxedStrategy<T>, u32, u32),
    /// All cases of the list (thorough?).
    List(fn(bool) -> Vec<T>),
}

pub struct Arm<T> {
    pub name: &'static str,
    pub src: Source<T>,
    pub check: fn(&T) -> Res,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub arms: Vec<Box<dyn AnyArm>>,
}

pub struct Params {
    pub thorough: bool,
    pub seed: u64,
    pub work: String,
    pub out: String,
    pub scale: f64,
    pub salt: u64,
    pub only: Option<String>,
    /// Seconds after which no new cases are started (safety net; reported if it strikes).
    pub budget: u64,
}

#[derive(Default)]
struct ArmStats {
    cases: u64,
    evals: u64,
    nontrivial: u64,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    seen: HashSet<u64>,
    slowest_ms: u64,
}

pub struct Shared<'a> {
    p: &'a Params,
    id: &'a str,
    stop: AtomicBool,
    late: AtomicBool,
    start: Instant,
    stats: Mutex<BTreeMap<&'static str, ArmStats>>,
    failures: Mutex<Vec<Value>>,
    /// Per thread: start of the current case in ms since `start` + 1, 0 = idle.
    busy: Vec<AtomicU64>,
}

pub trait AnyArm: Send + Sync {
    fn name(&self) -> &'static str;
    fn counts(&self) -> (usize, usize);
    fn listed(&self) -> bool;
    fn shard(&self, sh: &Shared, thread: usize, shard: usize, shards: usize);
    fn replay(&self, v: &Value) -> Res;
    /// Recipes as the generator makes them.
    #[cfg_attr(not(guided), allow(dead_code))]
    fn samples(&self, n: usize, seed: u64) -> Vec<Value>;
}

fn fnv(s: &[u8], mut h: u64) -> u64 {
    for &b in s {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

fn eval<T>(check: fn(&T) -> Res, c: &T) -> Res {
    match guard("check", || check(c)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

impl<T> Arm<T>
where
    T: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static,
{
    fn one(&self, sh: &Shared, thread: usize, st: &RefCell<ArmStats>, c: &T, js: &str, shrinking: bool) -> Result<(), String> {
        let path = format!("{}/current-{}.json", sh.p.work, thread);
        // The case is on disk while it runs, so that it is known if the process dies.
        let _ = std::fs::write(
            &path,
            format!("{{\"property\":\"{}\",\"arm\":\"{}\",\"case\":{}}}", sh.id, self.name, js),
        );
        let t = Instant::now();
        sh.busy[thread].store(sh.start.elapsed().as_millis() as u64 + 1, SeqCst);
        let r = eval(self.check, c);
        sh.busy[thread].store(0, SeqCst);
        match r {
            Ok(o) => {
                if !shrinking {
                    let mut s = st.borrow_mut();
                    s.slowest_ms = s.slowest_ms.max(t.elapsed().as_millis() as u64);
                    s.cases += 1;
                    s.evals += o.evals;
                    if o.nontrivial > 0 && s.seen.insert(fnv(js.as_bytes(), 0xcbf2_9ce4_8422_2325)) {
                        s.nontrivial += o.nontrivial;
                        let n = s.cases;
                        if s.samples.len() < 3 && (s.samples.is_empty() || n % 37 == 0) && js.len() < 1500 {
                            s.samples.push(json!({
                                "arm": self.name,
                                "case": serde_json::from_str::<Value>(js).unwrap(),
                                "classes": o.classes.clone(),
                                "observed": o.note.clone()}));
                        }
                    }
                    for c in o.classes {
                        *s.classes.entry(c).or_insert(0) += 1;
                    }
                }
                Ok(())
            }
            Err(e) => Err(e),
        }
    }

    fn fail(&self, sh: &Shared, c: &T, msg: String, original: Option<String>) {
        sh.stop.store(true, SeqCst);
        sh.failures.lock().unwrap().push(json!({
            "property": sh.id,
            "arm": self.name,
            "case": serde_json::to_value(c).unwrap(),
            "message": msg,
            "message_before_shrinking": original,
        }));
    }
}

impl<T> AnyArm for Arm<T>
where
    T: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn counts(&self) -> (usize, usize) {
        match self.src {
            Source::Gen(_, q, t) => (q as usize, t as usize),
            Source::List(f) => (f(false).len(), f(true).len()),
        }
    }
    fn listed(&self) -> bool {
        matches!(self.src, Source::List(_))
    }
    fn replay(&self, v: &Value) -> Res {
        let c: T = serde_json::from_value(v.clone()).map_err(|e| format!("bad replay file: {}", e))?;
        eval(self.check, &c)
    }
    fn samples(&self, n: usize, seed: u64) -> Vec<Value> {
        let strat = match self.src {
            Source::Gen(s, _, _) => s(),
            Source::List(_) => return vec![],
        };
        let mut b = [0u8; 32];
        b[..8].copy_from_slice(&seed.to_le_bytes());
        let mut tr = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &b));
        (0..n)
            .filter_map(|_| strat.new_tree(&mut tr).ok())
            .map(|t| serde_json::to_value(t.current()).unwrap())
            .collect()
    }
    fn shard(&self, sh: &Shared, thread: usize, shard: usize, shards: usize) {
        let st = RefCell::new(ArmStats::default());
        let over = || {
            if sh.start.elapsed() > Duration::from_secs(sh.p.budget) {
                sh.late.store(true, SeqCst);
                return true;
            }
            sh.stop.load(SeqCst)
        };
        match self.src {
            Source::List(f) => {
                let mut skip = 0usize;
                for (i, c) in f(sh.p.thorough).iter().enumerate() {
                    if i % shards != shard {
                        continue;
                    }
                    // Scaled down runs take an evenly spread part of the list.
                    skip += 1;
                    if sh.p.scale < 1.0 && ((skip as f64) * sh.p.scale) as usize == ((skip - 1) as f64 * sh.p.scale) as usize {
                        continue;
                    }
                    if over() {
                        break;
                    }
                    let js = serde_json::to_string(c).unwrap();
                    if let Err(e) = self.one(sh, thread, &st, c, &js, false) {
                        self.fail(sh, c, e, None);
                        break;
                    }
                }
            }
            Source::Gen(strat, q, t) => {
                let n = f64::from(if sh.p.thorough { t } else { q }) * sh.p.scale / shards as f64;
                let n = n.ceil() as u32;
                let mut seed = [0u8; 32];
                let mut h = fnv(format!("{} {} {} {} {}", sh.p.seed, sh.id, self.name, shard, sh.p.salt).as_bytes(), 0xcbf2_9ce4_8422_2325);
                for c in seed.chunks_mut(8) {
                    h = crate::gen::Rng(h).next();
                    c.copy_from_slice(&h.to_le_bytes());
                }
                let mut tr = TestRunner::new_with_rng(
                    Config {
                        cases: n,
                        failure_persistence: None,
                        max_shrink_iters: 3000,
                        max_shrink_time: 40_000,
                        max_global_rejects: 0,
                        ..Config::default()
                    },
                    TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
                );
                let first: RefCell<Option<String>> = RefCell::new(None);
                let s = strat();
                let r = tr.run(&s, |c| {
                    let shrinking = first.borrow().is_some();
                    if !shrinking && over() {
                        return Ok(());
                    }
                    let js = serde_json::to_string(&c).unwrap();
                    self.one(sh, thread, &st, &c, &js, shrinking).map_err(|e| {
                        if !shrinking {
                            sh.stop.store(true, SeqCst);
                            *first.borrow_mut() = Some(e.clone());
                        }
                        TestCaseError::fail(e)
                    })
                });
                match r {
                    Ok(()) => (),
                    Err(TestError::Fail(why, c)) => {
                        // The message has to belong to the minimal case.
                        let msg = match eval(self.check, &c) {
                            Err(e) => e,
                            Ok(_) => format!("(not reproduced when run again) {}", why),
                        };
                        self.fail(sh, &c, msg, first.into_inner());
                    }
                    Err(TestError::Abort(why)) => {
                        eprintln!("generator aborted: {}", why);
                        std::process::exit(4);
                    }
                }
            }
        }
        let s = st.into_inner();
        let mut g = sh.stats.lock().unwrap();
        let a = g.entry(self.name).or_default();
        a.cases += s.cases;
        a.evals += s.evals;
        a.nontrivial += s.nontrivial;
        a.slowest_ms = a.slowest_ms.max(s.slowest_ms);
        for (k, v) in s.classes {
            *a.classes.entry(k).or_insert(0) += v;
        }
        if a.samples.len() < 3 {
            a.samples.extend(s.samples);
            a.samples.truncate(3);
        }
    }
}

const SHARDS: usize = 16;

/// A case running this long (wall clock) ends the process; the driver then runs it alone, under a
/// CPU time limit, to decide.
const STUCK_S: u64 = 150;

pub fn run(p: Prop, params: Params) -> i32 {
    let _ = std::fs::create_dir_all(&params.work);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let mut tasks: Vec<(usize, usize)> = vec![];
    for s in 0..SHARDS {
        for a in 0..p.arms.len() {
            if params.only.as_deref().map_or(true, |o| o == p.arms[a].name()) {
                tasks.push((a, s));
            }
        }
    }
    let sh = Shared {
        p: &params,
        id: p.id,
        stop: AtomicBool::new(false),
        late: AtomicBool::new(false),
        start: Instant::now(),
        stats: Mutex::new(BTreeMap::new()),
        failures: Mutex::new(vec![]),
        busy: (0..threads).map(|_| AtomicU64::new(0)).collect(),
    };
    let next = AtomicUsize::new(0);
    let left = AtomicUsize::new(threads);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (sh, next, left, tasks, p) = (&sh, &next, &left, &tasks, &p);
            let r = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= tasks.len() {
                        break;
                    }
                    let (a, s) = tasks[i];
                    if let Err(_) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        p.arms[a].shard(sh, t, s, SHARDS)
                    })) {
                        eprintln!("harness error: {}", last_panic());
                        std::process::exit(4);
                    }
                }
                left.fetch_sub(1, SeqCst);
            });
            r.expect("thread");
        }
        // Watchdog
        while left.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            let now = sh.start.elapsed().as_millis() as u64 + 1;
            for (i, b) in sh.busy.iter().enumerate() {
                let v = b.load(SeqCst);
                if v != 0 && now > v + STUCK_S * 1000 {
                    eprintln!("stuck: thread {}", i);
                    println!("STUCK {}/current-{}.json", sh.p.work, i);
                    std::process::exit(3);
                }
            }
        }
    });
    let stats = sh.stats.into_inner().unwrap();
    let fails = sh.failures.into_inner().unwrap();
    let mut arms = serde_json::Map::new();
    for (k, a) in &stats {
        arms.insert(
            k.to_string(),
            json!({"listed": p.arms.iter().any(|a| a.name() == *k && a.listed()), "cases": a.cases, "evaluations": a.evals, "distinct_nontrivial": a.nontrivial,
                   "classes": a.classes, "samples": a.samples, "slowest_case_ms": a.slowest_ms}),
        );
    }
    let out = json!({
        "property": p.id, "rule": p.rule, "arms": arms, "failures": fails,
        "budget_hit": sh.late.load(SeqCst),
        "wall_s": sh.start.elapsed().as_secs_f64(),
    });
    std::fs::write(&params.out, serde_json::to_string_pretty(&out).unwrap()).expect("stats");
    if fails.is_empty() {
        0
    } else {
        1
    }
}

pub fn replay(props: &[Prop], file: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let arm = props
        .iter()
        .filter(|p| v["property"] == p.id)
        .flat_map(|p| p.arms.iter())
        .find(|a| v["arm"] == a.name());
    match arm {
        None => {
            eprintln!("{}: no such property/arm", file);
            2
        }
        Some(a) => match a.replay(&v["case"]) {
            Ok(o) => {
                println!("PASS {} {:?} {}", file, o.classes, o.note);
                0
            }
            Err(e) if e.starts_with("bad replay file") => {
                eprintln!("{}: {}", file, e);
                2
            }
            Err(e) => {
                println!("FAIL {}", e);
                1
            }
        },
    }
}
