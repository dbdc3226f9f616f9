//! Drives one property: proptest TestRunner per shard, shrinking, evidence, replay.
use crate::rng::G;
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// What a passing case tells about itself.
#[derive(Default, Clone, Debug)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}
impl Info {
    pub fn new(nontrivial: bool) -> Self {
        Info {
            nontrivial,
            labels: vec![],
        }
    }
    pub fn label(mut self, s: impl Into<String>) -> Self {
        self.labels.push(s.into());
        self
    }
    pub fn label_if(mut self, c: bool, s: &str) -> Self {
        if c {
            self.labels.push(s.to_string());
        }
        self
    }
}

pub type Outcome = Result<Info, String>;

pub trait Property: Send + Sync + 'static {
    type Case: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static;
    const ID: &'static str;
    fn rule(&self) -> String;
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    fn gen(&self, g: &mut G) -> Self::Case;
    fn shrink(&self, c: &Self::Case) -> Vec<Self::Case>;
    fn check(&self, c: &Self::Case) -> Outcome;
    /// cases (quick, thorough)
    fn cases(&self) -> (usize, usize);
    /// corner cases that are always run first
    fn fixed(&self) -> Vec<Self::Case> {
        vec![]
    }
}

struct CaseStrategy<P: Property>(Arc<P>);
impl<P: Property> Debug for CaseStrategy<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "CaseStrategy<{}>", P::ID)
    }
}
impl<P: Property> Strategy for CaseStrategy<P> {
    type Tree = CaseTree<P>;
    type Value = P::Case;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let c = self.0.gen(&mut G::new(runner.rng()));
        Ok(CaseTree {
            p: self.0.clone(),
            base: c.clone(),
            cands: None,
            idx: 0,
            cur: c,
        })
    }
}
struct CaseTree<P: Property> {
    p: Arc<P>,
    base: P::Case,
    cands: Option<Vec<P::Case>>,
    idx: usize,
    cur: P::Case,
}
impl<P: Property> CaseTree<P> {
    fn step(&mut self) -> bool {
        let c = self.cands.as_ref().unwrap();
        if self.idx < c.len() {
            self.cur = c[self.idx].clone();
            true
        } else {
            self.cur = self.base.clone();
            false
        }
    }
}
impl<P: Property> ValueTree for CaseTree<P> {
    type Value = P::Case;
    fn current(&self) -> P::Case {
        self.cur.clone()
    }
    fn simplify(&mut self) -> bool {
        // the current value fails: it becomes the base
        self.base = self.cur.clone();
        self.cands = Some(self.p.shrink(&self.base));
        self.idx = 0;
        self.step()
    }
    fn complicate(&mut self) -> bool {
        // the current candidate passes: try the next one of the same base
        if self.cands.is_none() {
            return false;
        }
        self.idx += 1;
        self.step()
    }
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
}

fn hash_of<T: Serialize>(c: &T) -> u64 {
    let s = serde_json::to_vec(c).unwrap();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".into()
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Runs `f`, turning a panic into Err with its location.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            let loc = LAST_PANIC.with(|p| p.borrow().clone());
            Err(format!("panic: {} [{}]", panic_text(e), loc))
        }
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = loc);
    }));
}

/// Report channel: file descriptor 3 when open (stdout carries the solver's own prints).
fn report(line: &str) {
    use std::os::fd::FromRawFd;
    if std::env::var("VERIF_FD3").is_ok() {
        let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(3) });
        let _ = writeln!(f, "{}", line);
        let _ = f.flush();
    } else {
        eprintln!("{}", line);
    }
}

/// CPU-time clock of a thread: a case that never ends is told from a slow machine by it.
mod cpu {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn pthread_self() -> usize;
        fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    pub fn clock() -> i32 {
        let mut c = 0;
        unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
        c
    }
    pub fn now(c: i32) -> f64 {
        let mut t = Ts { s: 0, n: 0 };
        unsafe { clock_gettime(c, &mut t) };
        t.s as f64 + t.n as f64 * 1e-9
    }
}
/// CPU seconds after which a case counts as never ending (the slowest ones take a few).
const HANG: f64 = 90.0;

/// the case a shard is working on: (clock of the thread, its CPU time at the start, the case)
type Current<C> = Arc<Mutex<Option<(i32, f64, C)>>>;

fn watch<C: Serialize + Send + 'static>(id: &'static str, root: String, seed: u64, tab: Vec<Current<C>>) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        for (shard, cur) in tab.iter().enumerate() {
            let g = cur.lock().unwrap_or_else(|e| e.into_inner());
            if let Some((clock, start, case)) = g.as_ref() {
                if cpu::now(*clock) - start > HANG {
                    let msg = format!("the case does not end (more than {} s of CPU time)", HANG);
                    let path = write_replay(id, &root, seed, shard, &msg, case);
                    report(&format!("{}: {}", id, msg));
                    report(&format!("VIOLATION property={} replay={}", id, path));
                    std::process::exit(1);
                }
            }
        }
    });
}

fn write_replay<C: Serialize>(id: &str, root: &str, seed: u64, shard: usize, msg: &str, case: &C) -> String {
    let dir = format!("{}/replays", root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-seed{}-shard{}.json", dir, id, seed, shard);
    let body = json!({"property": id, "message": msg, "case": case});
    std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap() + "\n").expect("write replay");
    path
}

pub fn run<P: Property>(p: P) -> ! {
    install_hook();
    let t0 = Instant::now();
    let id = P::ID;
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let args: Vec<String> = std::env::args().collect();
    let p = Arc::new(p);

    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let txt = std::fs::read_to_string(&args[i + 1]).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&txt).expect("replay json");
        let case: P::Case = serde_json::from_value(v["case"].clone()).expect("replay case");
        let cur: Current<P::Case> = Arc::new(Mutex::new(Some((cpu::clock(), 0.0, case.clone()))));
        watch(P::ID, root.clone(), seed, vec![cur]);
        match guarded(|| p.check(&case)) {
            Ok(i) => {
                report(&format!("replay: property {} holds on this case ({:?})", id, i));
                std::process::exit(0)
            }
            Err(e) => {
                report(&format!("replay: {}", e));
                report(&format!("VIOLATION property={} replay={}", id, args[i + 1]));
                std::process::exit(1)
            }
        }
    }

    let (q, th) = p.cases();
    let mut total = if thorough { th } else { q };
    if let Some(m) = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()) {
        total = m;
    }
    const SHARDS: usize = 8;
    let per = total.div_ceil(SHARDS);
    let stop = Arc::new(AtomicBool::new(false));
    let slow: f64 = std::env::var("VERIF_SLOW")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(f64::INFINITY);

    let tab: Vec<Current<P::Case>> = (0..SHARDS).map(|_| Arc::new(Mutex::new(None))).collect();
    watch(P::ID, root.clone(), seed, tab.clone());
    let mut handles = vec![];
    for shard in 0..SHARDS {
        let p = p.clone();
        let stop = stop.clone();
        let cur = tab[shard].clone();
        let root2 = root.clone();
        handles.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let stats = Mutex::new(Stats::default());
                    let failed = AtomicBool::new(false);
                    let eval = |case: &P::Case| -> Result<(), String> {
                        let ts = Instant::now();
                        let clock = cpu::clock();
                        *cur.lock().unwrap() = Some((clock, cpu::now(clock), case.clone()));
                        let out = guarded(|| p.check(case));
                        *cur.lock().unwrap() = None;
                        if ts.elapsed().as_secs_f64() > slow {
                            let f = format!("{}/slow-{}-{}.json", root2, id, hash_of(case));
                            let _ = std::fs::write(&f, json!({"case": case}).to_string());
                            report(&format!("slow case {:.2}s: {}", ts.elapsed().as_secs_f64(), f));
                        }
                        if failed.load(Ordering::Relaxed) {
                            return out.map(|_| ());
                        }
                        let mut st = stats.lock().unwrap();
                        st.evals += 1;
                        match out {
                            Ok(info) => {
                                for l in info.labels {
                                    *st.labels.entry(l).or_insert(0) += 1;
                                }
                                if info.nontrivial {
                                    st.nontrivial += 1;
                                    let h = hash_of(case);
                                    st.distinct.insert(h);
                                    if st.samples.len() < 2 {
                                        let s = serde_json::to_string(case).unwrap();
                                        if s.len() < 1500 {
                                            st.samples.push(serde_json::to_value(case).unwrap());
                                        }
                                    }
                                }
                                Ok(())
                            }
                            Err(e) => {
                                failed.store(true, Ordering::Relaxed);
                                stop.store(true, Ordering::Relaxed);
                                Err(e)
                            }
                        }
                    };
                    let mut result: Option<(String, P::Case)> = None;
                    if shard == 0 {
                        for c in p.fixed() {
                            if let Err(e) = eval(&c) {
                                result = Some((e, c));
                                break;
                            }
                        }
                    }
                    if result.is_none() {
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        id.hash(&mut h);
                        let idh = h.finish();
                        let mut key = [0u8; 32];
                        key[..8].copy_from_slice(&seed.to_le_bytes());
                        key[8..16].copy_from_slice(&idh.to_le_bytes());
                        key[16..24].copy_from_slice(&(shard as u64).to_le_bytes());
                        let cfg = Config {
                            cases: per as u32,
                            failure_persistence: None,
                            max_shrink_iters: 1500,
                            max_shrink_time: 40_000,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(
                            cfg,
                            TestRng::from_seed(RngAlgorithm::ChaCha, &key),
                        );
                        let strat = CaseStrategy(p.clone());
                        let r = runner.run(&strat, |case| {
                            if stop.load(Ordering::Relaxed) && !failed.load(Ordering::Relaxed) {
                                return Ok(()); // another shard already failed
                            }
                            eval(&case).map_err(TestCaseError::fail)
                        });
                        match r {
                            Ok(()) => {}
                            Err(TestError::Fail(reason, c)) => {
                                result = Some((reason.message().to_string(), c));
                            }
                            Err(TestError::Abort(reason)) => {
                                report(&format!("ERROR: aborted: {}", reason));
                                std::process::exit(2);
                            }
                        }
                    }
                    (stats.into_inner().unwrap(), result)
                })
                .unwrap(),
        );
    }
    let mut all = Stats::default();
    let mut failure: Option<(usize, String, P::Case)> = None;
    for (shard, h) in handles.into_iter().enumerate() {
        let (st, r) = match h.join() {
            Ok(x) => x,
            Err(_) => {
                report("ERROR: shard thread died");
                std::process::exit(2);
            }
        };
        all.evals += st.evals;
        all.nontrivial += st.nontrivial;
        all.distinct.extend(st.distinct);
        for (k, v) in st.labels {
            *all.labels.entry(k).or_insert(0) += v;
        }
        for s in st.samples {
            if all.samples.len() < 4 {
                all.samples.push(s);
            }
        }
        if let (None, Some((e, c))) = (&failure, r) {
            failure = Some((shard, e, c));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let nviol = failure.is_some() as i32;
    let ev = json!({
        "property": id,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.evals,
            "nontrivial": all.nontrivial,
            "distinct_nontrivial": all.distinct.len(),
            "rule": p.rule(),
            "classes": all.labels,
            "shards": SHARDS,
            "samples": all.samples,
        },
        "assumptions": p.assumptions(),
        "wall_s": wall,
        "violations": nviol,
    });
    let evdir = format!("{}/evidence", root);
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(
        format!("{}/{}.json", evdir, id),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("write evidence");
    report(&format!(
        "{}: {} cases, {} distinct non-trivial, seed {}, {:.1} s",
        id,
        all.evals,
        all.distinct.len(),
        seed,
        wall
    ));
    if std::env::var("VERIF_LABELS").is_ok() {
        for (k, v) in &all.labels {
            report(&format!("   {:>8} {}", v, k));
        }
    }
    if let Some((shard, e, c)) = failure {
        let path = write_replay(id, &root, seed, shard, &e, &c);
        report(&format!("{}: {}", id, e));
        report(&format!("VIOLATION property={} replay={}", id, path));
        std::process::exit(1);
    }
    if all.distinct.is_empty() {
        report("ERROR: no non-trivial case was generated");
        std::process::exit(2);
    }
    std::process::exit(0)
}
