//! Failures that do not come back as a result or a panic: a case that never ends, and an abort of the process (memory
//! exhausted, stack overflow, panic while panicking). A monitor thread knows the cases in progress, finds the one to
//! blame by its thread or by running each of them in a process of its own, and reports it as a violation.
use std::io::Write;
use std::os::unix::io::FromRawFd;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

type Json = Box<dyn Fn() -> serde_json::Value + Send>;
struct Slot { key: u64, tid: i32, since: Instant, sub: String, case: Json }
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(vec![]);
static NEXT: Mutex<u64> = Mutex::new(0);
static ABORTED: AtomicBool = AtomicBool::new(false);
static BY: AtomicI32 = AtomicI32::new(0);

fn tid() -> i32 { unsafe { libc::syscall(libc::SYS_gettid) as i32 } }

pub struct Running(u64);
impl Drop for Running {
    fn drop(&mut self) { if let Ok(mut s) = SLOTS.lock() { s.retain(|x| x.key != self.0); } }
}

/// announces a case until the result is dropped
pub fn running<C: serde::Serialize + Clone + Send + 'static>(sub: &str, case: &C) -> Running {
    let key = { let mut n = NEXT.lock().unwrap(); *n += 1; *n };
    let c = case.clone();
    SLOTS.lock().unwrap().push(Slot { key, tid: tid(), since: Instant::now(), sub: sub.to_string(), case: Box::new(move || serde_json::to_value(&c).unwrap_or_default()) });
    Running(key)
}

extern "C" fn on_abort(_: libc::c_int) {
    let _ = BY.compare_exchange(0, tid(), Ordering::SeqCst, Ordering::SeqCst);
    ABORTED.store(true, Ordering::SeqCst);
    loop { unsafe { libc::pause(); } }
}

/// Set before the runtime starts: it then leaves these signals alone, and makes no signal stack for each of the (very many)
/// threads of the code under test, which costs most of the time of small cases. Threads that run cases have one, see below.
extern "C" fn early() {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_abort as *const () as usize;
        a.sa_flags = libc::SA_ONSTACK;
        // (run.sh tries again with signal stacks for all when a thread of the code under test overflows its stack)
        let all = !libc::getenv(b"VERIF_SIGNAL_STACKS\0".as_ptr() as *const libc::c_char).is_null();
        for s in if all { vec![libc::SIGABRT] } else { vec![libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS] } { libc::sigaction(s, &a, std::ptr::null_mut()); }
    }
}
#[used]
#[link_section = ".init_array"]
static EARLY: extern "C" fn() = early;

/// gives the calling thread a signal stack while the result lives, so that an overflow of its stack is noticed
pub struct SignalStack(usize);
static STACKS: Mutex<Vec<usize>> = Mutex::new(vec![]);
pub fn signal_stack() -> SignalStack {
    const SIZE: usize = 64 << 10;
    let free = STACKS.lock().unwrap().pop();
    let m = free.unwrap_or_else(|| Vec::<u8>::with_capacity(SIZE).leak().as_mut_ptr() as usize);
    unsafe { libc::sigaltstack(&libc::stack_t { ss_sp: m as *mut libc::c_void, ss_flags: 0, ss_size: SIZE }, std::ptr::null_mut()); }
    SignalStack(m)
}
impl Drop for SignalStack {
    fn drop(&mut self) {
        unsafe { libc::sigaltstack(&libc::stack_t { ss_sp: std::ptr::null_mut(), ss_flags: libc::SS_DISABLE, ss_size: 0 }, std::ptr::null_mut()); }
        if let Ok(mut s) = STACKS.lock() { s.push(self.0); }
    }
}

/// seconds after which a single case counts as endless (cases take milliseconds, the largest of them a few seconds)
fn hang_limit(thorough: bool) -> u64 { std::env::var("VERIF_CASE_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1800 } else { 240 }) }

/// memory beyond which allocations fail, so that exhaustion is an abort of this process and not of another one
/// (address space: up to 6 GB of it are stacks and arenas of threads with 8 CPUs)
fn memory(replaying: bool) -> u64 {
    let cpus = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).max(8);
    (if replaying { cpus } else { cpus * 3 / 2 }) << 30
}

pub fn start(id: String, thorough: bool, seed: u64, verif: PathBuf, out: std::fs::File, replaying: bool) {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_AS, &mut l);
        l.rlim_cur = memory(replaying).min(l.rlim_max);
        libc::setrlimit(libc::RLIMIT_AS, &l);
        libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
    }
    std::thread::spawn(move || {
        let mut out = out;
        let t0 = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let aborted = ABORTED.load(Ordering::SeqCst);
            let limit = Duration::from_secs(hang_limit(thorough));
            let found: Vec<(String, serde_json::Value)> = {
                let s = match SLOTS.lock() { Ok(s) => s, Err(e) => e.into_inner() };
                let by = BY.load(Ordering::SeqCst);
                let known = aborted && s.iter().any(|x| x.tid == by);
                s.iter().filter(|x| if known { x.tid == by } else { aborted || x.since.elapsed() > limit }).map(|x| (x.sub.clone(), (x.case)())).collect()
            };
            if found.is_empty() {
                if aborted { let _ = writeln!(out, "ERROR property={} the check itself aborted", id); std::process::exit(3); }
                continue;
            }
            let message = if aborted { "the process aborts (memory exhausted or stack overflow)" } else { "does not terminate" };
            if replaying {
                let _ = writeln!(out, "replay: {}\nVIOLATION property={} replay=(given)", message, id);
                let _ = out.flush();
                std::process::exit(1);
            }
            let dir = verif.join("evidence").join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let mut chosen = None;
            for (k, (sub, case)) in found.iter().enumerate() {
                let path = dir.join(format!("{}-{}-{}-{}-seed{}.json", id, if aborted { "abort" } else { "hang" }, sub.replace(|c: char| !c.is_alphanumeric(), "_"), k, seed));
                let j = serde_json::json!({"property": id, "sub": sub, "message": message, "case": case});
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap_or_default());
                if chosen.is_some() { let _ = std::fs::remove_file(&path); continue; }
                // a single case that has not ended is the culprit; after an abort try each of them
                if aborted && found.len() > 1 && k + 1 < found.len() {
                    let r = std::env::current_exe().and_then(|exe| std::process::Command::new(exe).arg("--replay").arg(&path)
                        .env("VERIF_CASE_LIMIT_S", "60").stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status());
                    if !matches!(r, Ok(s) if s.code() == Some(0)) { chosen = Some((path, sub.clone())); } else { let _ = std::fs::remove_file(&path); }
                } else { chosen = Some((path, sub.clone())); }
            }
            let (path, sub) = chosen.expect("one");
            let started = *NEXT.lock().unwrap();
            let ev = serde_json::json!({"property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration", "violations": 1,
                "coverage": {"evaluations": started, "distinct_nontrivial": found.len(), "rule": format!("ended early: {}; cases started, and those in progress at the end", message), "samples": [found[0].1]},
                "assumptions": [], "wall_s": t0.elapsed().as_secs_f64()});
            let _ = std::fs::write(verif.join("evidence").join(format!("{}.json", id)), ev.to_string());
            let _ = writeln!(out, "{}: {}\nVIOLATION property={} replay={}", sub, message, id, path.display());
            let _ = out.flush();
            std::process::exit(1);
        }
    });
}

pub fn dup_out(f: &std::fs::File) -> std::fs::File {
    use std::os::unix::io::AsRawFd;
    unsafe { std::fs::File::from_raw_fd(libc::dup(f.as_raw_fd())) }
}
