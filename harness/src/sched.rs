//! Random schedules: threads made while a schedule is set start after a pseudo-random delay, so that pieces of work handed
//! to threads finish in all kinds of orders, also where each of them takes microseconds only.
use std::cell::Cell;
use std::ffi::c_void;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

thread_local! {
    /// seed of the schedule (zero: none) and number of threads made under it by this thread
    static SCHED: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}
static DELAYED: AtomicU64 = AtomicU64::new(0);
static REAL: AtomicUsize = AtomicUsize::new(0);

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> libc::c_int;

struct Delayed { start: Start, arg: *mut c_void, micros: u64, seed: u64 }

extern "C" fn late(p: *mut c_void) -> *mut c_void {
    let d = unsafe { Box::from_raw(p as *mut Delayed) };
    let (start, arg, micros, seed) = (d.start, d.arg, d.micros, d.seed);
    drop(d);
    // threads made by this one follow a schedule derived from it
    let _ = SCHED.try_with(|s| s.set((seed, 0)));
    if micros > 0 { unsafe { libc::usleep(micros as u32); } }
    start(arg)
}

/// takes the place of the C library's function within this program
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, start: Start, arg: *mut c_void) -> libc::c_int {
    let mut real = REAL.load(Ordering::Relaxed);
    if real == 0 {
        real = libc::dlsym(libc::RTLD_NEXT, b"pthread_create\0".as_ptr() as *const libc::c_char) as usize;
        REAL.store(real, Ordering::Relaxed);
    }
    let real: Create = std::mem::transmute(real);
    let (seed, k) = SCHED.try_with(|s| { let (a, b) = s.get(); s.set((a, b + 1)); (a, b) }).unwrap_or((0, 0));
    if seed == 0 { return real(t, attr, start, arg); }
    let r = crate::mix(seed ^ crate::mix(k + 1));
    let micros = match seed % 4 {
        // any order
        0 => (r % 5) * 120,
        // last made is first
        1 => 900u64.saturating_sub(k % 24 * 60),
        // a few late ones
        2 => if r % 3 == 0 { 400 } else { 0 },
        // one of two
        _ => (k + seed / 4) % 2 * 300,
    };
    DELAYED.fetch_add(1, Ordering::Relaxed);
    let d = Box::into_raw(Box::new(Delayed { start, arg, micros, seed: r / 4 * 4 + seed % 4 }));
    let res = real(t, attr, late, d as *mut c_void);
    if res != 0 { drop(Box::from_raw(d)); }
    res
}

/// everything inside of f, with the threads it makes, runs under the schedule of this seed
pub fn with_schedule<R>(seed: u64, f: impl FnOnce() -> R) -> R {
    struct Back((u64, u64));
    impl Drop for Back { fn drop(&mut self) { SCHED.with(|s| s.set(self.0)); } }
    let _back = Back(SCHED.with(|s| s.replace((seed | 1 << 63, 0))));
    f()
}

pub fn delayed_threads() -> u64 { DELAYED.load(Ordering::Relaxed) }
