//! Drives proptest over sub-checks, shards them over threads, shrinks, writes replays and evidence.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::os::unix::io::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default, Debug)]
pub struct Out {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// (known finding id, description): tolerated only if the id is listed for this property
    pub known: Option<(String, String)>,
}

impl Out {
    pub fn nt() -> Out { Out { nontrivial: true, ..Default::default() } }
    pub fn trivial() -> Out { Out::default() }
    pub fn when(b: bool) -> Out { Out { nontrivial: b, ..Default::default() } }
    pub fn l<S: Into<String>>(mut self, s: S) -> Out { self.labels.push(s.into()); self }
    pub fn lif<S: Into<String>>(self, b: bool, s: S) -> Out { if b { self.l(s) } else { self } }
}

pub type Res = Result<Out, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}

#[derive(Deserialize)]
struct Known { id: String, property: String, what: String, #[serde(default)] status: String }

#[derive(Serialize, Deserialize)]
struct Replay { property: String, sub: String, message: String, case: serde_json::Value }

#[derive(Default)]
struct Agg {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    subs: Vec<serde_json::Value>,
    known_seen: BTreeMap<String, (String, u64)>,
    excluded: u64,
    violations: Vec<String>,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    rule: String,
    replay: Option<Replay>,
    known: Vec<Known>,
    start: Instant,
    agg: Mutex<Agg>,
    out: Mutex<std::fs::File>,
    verif: PathBuf,
    assumptions: Vec<String>,
    only: Option<String>,
}

thread_local! { pub static SHARD: RefCell<usize> = RefCell::new(0); }

fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); }
    crate::el::mix(h)
}

pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".into() };
            Err(format!("panic: {}", m))
        }
    }
}

static ALLOWED: Mutex<Vec<usize>> = Mutex::new(vec![]);

fn get_affinity() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set);
        (0..libc::CPU_SETSIZE as usize).filter(|i| libc::CPU_ISSET(*i, &set)).collect()
    }
}

fn set_affinity(cpus: &[usize]) -> bool {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        for c in cpus { libc::CPU_SET(*c, &mut set); }
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set) == 0
    }
}

/// number of CPUs available to this process
pub fn max_cpus() -> usize { ALLOWED.lock().unwrap().len().max(1) }

/// Runs `f` on a thread that may use `k` CPUs only (fewer if the machine has fewer), so that code asking for the number
/// of CPUs sees that. The subset depends on the shard only to spread the load.
pub fn with_cpus<T>(k: usize, f: impl FnOnce() -> T) -> T {
    let allowed = ALLOWED.lock().unwrap().clone();
    if allowed.is_empty() { return f(); }
    let n = allowed.len();
    let k = k.max(1).min(n);
    let shard = SHARD.with(|s| *s.borrow());
    let sel: Vec<usize> = (0..k).map(|i| allowed[(shard + i) % n]).collect();
    set_affinity(&sel);
    struct Restore(Vec<usize>);
    impl Drop for Restore { fn drop(&mut self) { set_affinity(&self.0); } }
    let _r = Restore(allowed);
    f()
}

impl Ctx {
    pub fn new(id: &str, rule: &str) -> Ctx {
        crate::blake::self_test();
        let mut tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
        let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i128>().ok()).map(|x| x as u64).unwrap_or(1);
        let mut replay = None;
        let mut only = None;
        let args: Vec<String> = std::env::args().collect();
        let mut i = 1;
        while i < args.len() {
            match args[i].as_str() {
                "--tier" => { tier = args[i + 1].clone(); i += 2; }
                "--seed" => { seed = args[i + 1].parse().expect("seed"); i += 2; }
                "--only" => { only = Some(args[i + 1].clone()); i += 2; }
                "--replay" => {
                    let s = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                    let r: Replay = serde_json::from_str(&s).expect("replay json");
                    replay = Some(r);
                    i += 2;
                }
                x => panic!("unknown argument {}", x),
            }
        }
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
        // the code under test prints to the standard output: keep ours apart
        let out = unsafe {
            let fd = libc::dup(1);
            let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
            if null >= 0 { libc::dup2(null, 1); libc::close(null); }
            std::fs::File::from_raw_fd(fd)
        };
        std::panic::set_hook(Box::new(|_| {}));
        *ALLOWED.lock().unwrap() = get_affinity();
        let known: Vec<Known> = {
            let s = std::fs::read_to_string(verif.join("known_findings.json")).unwrap_or("[]".into());
            let v: Vec<Known> = serde_json::from_str(&s).expect("known_findings.json");
            v.into_iter().filter(|k| k.property == id && k.status != "fixed").collect()
        };
        // watchdog: an endless computation is an error of the check, not a verdict
        let limit = if tier == "thorough" { 6 * 3600 } else { 840 };
        let limit = std::env::var("VERIF_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(limit);
        let wid = id.to_string();
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(limit));
            eprintln!("INCONCLUSIVE property={} time limit of {} s", wid, limit);
            std::process::exit(3);
        });
        crate::guard::start(id.to_string(), tier == "thorough", seed, verif.clone(), crate::guard::dup_out(&out), replay.is_some());
        Ctx {
            id: id.to_string(), thorough: tier == "thorough", seed, rule: rule.to_string(), replay, known,
            start: Instant::now(), agg: Mutex::new(Agg::default()), out: Mutex::new(out), verif, assumptions: vec![], only,
        }
    }

    pub fn assume(&mut self, s: &str) { self.assumptions.push(s.to_string()); }

    pub fn say(&self, s: &str) { let mut o = self.out.lock().unwrap(); let _ = writeln!(o, "{}", s); let _ = o.flush(); }

    pub fn n(&self, quick: u32, thorough: u32) -> u32 {
        let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
        ((if self.thorough { thorough } else { quick }) as f64 * scale) as u32
    }

    /// Cases removed by construction of a generator because of a known finding
    pub fn exclude(&self, n: u64) { self.agg.lock().unwrap().excluded += n; }

    pub fn sub<C, S, K>(&self, name: &str, cases: u32, strategy: S, check: K)
        where C: Serialize + DeserializeOwned + Clone + Debug + Send + 'static,
              S: Fn() -> BoxedStrategy<C> + Sync,
              K: Fn(&C) -> Res + Sync
    { self.sub_t(name, cases, 8, strategy, check) }

    pub fn sub_t<C, S, K>(&self, name: &str, cases: u32, threads: usize, strategy: S, check: K)
        where C: Serialize + DeserializeOwned + Clone + Debug + Send + 'static,
              S: Fn() -> BoxedStrategy<C> + Sync,
              K: Fn(&C) -> Res + Sync
    {
        if let Some(o) = &self.only { if !name.contains(o.as_str()) { return; } }
        if let Some(r) = &self.replay {
            if r.sub != name { return; }
            let case: C = serde_json::from_value(r.case.clone()).expect("case of the replay");
            let _stack = crate::guard::signal_stack();
            let _r = crate::guard::running(name, &case);
            match guarded(|| check(&case)) {
                Ok(o) => {
                    if let Some((k, d)) = o.known { self.note_known(&k, &d); } else { self.say(&format!("replay: property held ({:?})", o.labels)); }
                }
                Err(m) => { self.say(&format!("replay: {}", m)); self.agg.lock().unwrap().violations.push(name.to_string()); }
            }
            return;
        }
        let t0 = Instant::now();
        let threads = threads.max(1);
        let stop = AtomicBool::new(false);
        let fails: Mutex<Vec<(usize, String, serde_json::Value)>> = Mutex::new(vec![]);
        let before = { let a = self.agg.lock().unwrap(); (a.evaluations, a.distinct.len()) };
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                let (stop, fails, strategy, check, next) = (&stop, &fails, &strategy, &check, &next);
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                    let _stack = crate::guard::signal_stack();
                    let shard = next.fetch_add(1, Ordering::SeqCst);
                    SHARD.with(|s| *s.borrow_mut() = shard);
                    let my = cases / threads as u32 + if (shard as u32) < cases % threads as u32 { 1 } else { 0 };
                    if my == 0 { return; }
                    let mut seed = [0u8; 32];
                    for i in 0..4 {
                        let w = fnv(format!("{}/{}/{}/{}/{}", self.seed, self.id, name, shard, i).as_bytes());
                        seed[8 * i..8 * i + 8].copy_from_slice(&w.to_le_bytes());
                    }
                    let cfg = Config { cases: my, failure_persistence: None, max_shrink_iters: 3000, max_shrink_time: 60_000, max_global_rejects: 1_000_000, ..Config::default() };
                    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
                    let failed = RefCell::new(false);
                    let local = RefCell::new((0u64, Vec::<u64>::new(), BTreeMap::<String, u64>::new(), Vec::<serde_json::Value>::new(), Vec::<(String, String)>::new()));
                    let strat = strategy();
                    let r = runner.run(&strat, |case| {
                        if stop.load(Ordering::Relaxed) && !*failed.borrow() { return Ok(()); }
                        let r = { let _r = crate::guard::running(name, &case); guarded(|| check(&case)) };
                        let r = match r {
                            Ok(o) => match &o.known {
                                Some((k, d)) if !self.known.iter().any(|x| x.id == *k) => Err(format!("{} ({})", d, k)),
                                _ => Ok(o),
                            },
                            e => e,
                        };
                        match r {
                            Ok(o) => {
                                if !*failed.borrow() {
                                    let mut l = local.borrow_mut();
                                    l.0 += 1;
                                    if o.nontrivial {
                                        let j = serde_json::to_string(&case).unwrap_or_default();
                                        l.1.push(fnv(format!("{}{}", name, j).as_bytes()));
                                        if shard == 0 && l.3.len() < 2 && j.len() < 6000 {
                                            l.3.push(serde_json::json!({"sub": name, "case": serde_json::from_str::<serde_json::Value>(&j).unwrap_or_default(), "labels": o.labels}));
                                        }
                                    }
                                    for x in o.labels { *l.2.entry(x).or_insert(0) += 1; }
                                    if let Some(k) = o.known { l.4.push(k); }
                                }
                                Ok(())
                            }
                            Err(m) => { *failed.borrow_mut() = true; stop.store(true, Ordering::Relaxed); Err(TestCaseError::fail(m)) }
                        }
                    });
                    match r {
                        Ok(()) => {}
                        Err(TestError::Fail(reason, value)) => {
                            fails.lock().unwrap().push((shard, reason.message().to_string(), serde_json::to_value(&value).unwrap_or_default()));
                        }
                        Err(TestError::Abort(reason)) => {
                            eprintln!("ERROR property={} sub={} generator aborted: {}", self.id, name, reason);
                            std::process::exit(3);
                        }
                    }
                    let l = local.into_inner();
                    let mut a = self.agg.lock().unwrap();
                    a.evaluations += l.0;
                    a.distinct.extend(l.1);
                    for (k, v) in l.2 { *a.labels.entry(format!("{}: {}", name, k)).or_insert(0) += v; }
                    if a.samples.len() < 12 { a.samples.extend(l.3); }
                    drop(a);
                    for (k, d) in l.4 { self.note_known(&k, &d); }
                }).expect("thread");
            }
        });
        let mut a = self.agg.lock().unwrap();
        let (e, d) = (a.evaluations - before.0, a.distinct.len() - before.1);
        a.subs.push(serde_json::json!({"sub": name, "evaluations": e, "distinct_nontrivial": d, "wall_s": t0.elapsed().as_secs_f64()}));
        let mut f = fails.into_inner().unwrap();
        f.sort_by_key(|x| x.0);
        if let Some((_, message, case)) = f.into_iter().next() {
            let dir = self.verif.join("evidence").join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}-seed{}.json", self.id, name.replace(|c: char| !c.is_alphanumeric(), "_"), self.seed));
            let r = Replay { property: self.id.clone(), sub: name.to_string(), message: message.clone(), case };
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
            a.violations.push(name.to_string());
            drop(a);
            let short: String = message.chars().take(600).collect();
            self.say(&format!("{}: {}", name, short));
            self.say(&format!("VIOLATION property={} replay={}", self.id, path.display()));
        }
    }

    /// A single fixed input
    pub fn one<K: Fn() -> Res + Sync>(&self, name: &str, check: K) {
        self.sub_t(name, 1, 1, || { use proptest::prelude::*; Just(0u8).boxed() }, |_| check());
    }

    fn note_known(&self, id: &str, d: &str) {
        let mut a = self.agg.lock().unwrap();
        let e = a.known_seen.entry(id.to_string()).or_insert((d.to_string(), 0));
        e.1 += 1;
    }

    pub fn finish(self) -> ! {
        if std::env::var("VERIF_MEM").is_ok() {
            let s = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
            eprintln!("{} {}", self.id, s.lines().filter(|l| l.starts_with("VmPeak") || l.starts_with("VmHWM")).collect::<Vec<_>>().join(" "));
        }
        let a = self.agg.into_inner().unwrap();
        let mut o = self.out.into_inner().unwrap();
        for k in self.known.iter() {
            if a.known_seen.contains_key(&k.id) {
                let _ = writeln!(o, "KNOWN-FINDING: property={} {} {}", self.id, k.id, k.what);
            }
        }
        if self.replay.is_none() {
            let ev = serde_json::json!({
                "property": self.id,
                "tier": if self.thorough { "thorough" } else { "quick" },
                "seed": self.seed,
                "level": "exploration",
                "coverage": {
                    "evaluations": a.evaluations,
                    "distinct_nontrivial": a.distinct.len(),
                    "rule": self.rule,
                    "samples": a.samples,
                    "by_sub_check": a.subs,
                    "labels": a.labels,
                    "excluded_known_region": a.excluded,
                    "known_findings_seen": a.known_seen.iter().map(|(k, v)| serde_json::json!({"id": k, "cases": v.1, "example": v.0})).collect::<Vec<_>>(),
                    "cpus_available": max_cpus(),
                },
                "assumptions": self.assumptions,
                "wall_s": self.start.elapsed().as_secs_f64(),
                "violations": a.violations.len(),
            });
            let dir = self.verif.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
            let _ = writeln!(o, "property={} evaluations={} distinct_nontrivial={} violations={} wall={:.1}s", self.id, a.evaluations, a.distinct.len(), a.violations.len(), self.start.elapsed().as_secs_f64());
        } else if !a.violations.is_empty() {
            let _ = writeln!(o, "VIOLATION property={} replay=(given)", self.id);
        }
        let _ = o.flush();
        std::process::exit(if a.violations.is_empty() { 0 } else { 1 });
    }
}

/// Runs on a thread of its own (with the affinity of this one), so that an endless loop is noticed
pub fn with_timeout<T: Send + 'static>(secs: u64, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new().stack_size(16 << 20).spawn(move || { let _stack = crate::guard::signal_stack(); let _ = tx.send(f()); }).expect("thread");
    rx.recv_timeout(Duration::from_secs(secs)).ok()
}

/// calls `f::<Field>(arg)` for the selected field
#[macro_export]
macro_rules! by_field {
    ($sel:expr, $f:ident, $arg:expr; $($t:ty),+ $(,)?) => {{
        let total = [$(stringify!($t)),+].len();
        let s = $sel as usize % total;
        let mut k = 0usize;
        let mut r = None;
        $( if s == k { r = Some($f::<$t>($arg)); } k += 1; )+
        let _ = k;
        r.expect("field")
    }};
}
