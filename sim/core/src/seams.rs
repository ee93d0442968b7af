//! The seams: every source of nondeterminism the code under test can reach is interposed here.
//!  * basic-block guards (inserted by the compiler into the real, unmodified code under test):
//!    deterministic progress measure, liveness bound, preemption point
//!  * clock_gettime / gettimeofday / time / nanosleep: simulated clock
//!  * getrandom: hash seeds
//!  * syscall(SYS_futex): std's Mutex/Condvar/Once/RwLock/park block in the simulator
use crate::ctx::{Ctx, COV_CAP, CUR};
use crate::sched;
use crate::sys;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static mut STEPS: u64 = 0;
pub static mut STEP_LIMIT: u64 = u64::MAX;
/// steps until the next scheduling decision; only meaningful while threads are simulated
pub static mut COUNTDOWN: u64 = u64::MAX;
pub static mut N_GUARDS: u32 = 0;
pub static mut COV: *mut u8 = std::ptr::null_mut();
/// hash of the control-flow path of the run (order-insensitive bitmap is in COV)
pub static mut IN_RUN: bool = false;
/// true while library code (not harness code or a harness callback) is executing
pub static mut LIB: bool = false;

/// Scope guard for `LIB`; restores the previous mode on return and on unwind.
pub struct Mode(bool);
impl Mode {
    pub fn set(on: bool) -> Mode {
        unsafe {
            let m = Mode(LIB);
            LIB = on;
            m
        }
    }
}
impl Drop for Mode {
    fn drop(&mut self) {
        unsafe { LIB = self.0 }
    }
}
/// Runs `f` as library code (counted, preemptible).
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    let _m = Mode::set(true);
    f()
}
/// Runs `f` as harness code: used by every callback the library calls back into.
pub fn harness<T>(f: impl FnOnce() -> T) -> T {
    let _m = Mode::set(false);
    f()
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
    if s == e || *s != 0 {
        return;
    }
    while s < e {
        N_GUARDS += 1;
        *s = N_GUARDS;
        s = s.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !IN_RUN {
        return;
    }
    if !LIB {
        return;
    }
    STEPS += 1;
    if !COV.is_null() {
        *COV.add(*g as usize & (COV_CAP - 1)) = 1;
    }
    if STEPS > STEP_LIMIT {
        STEP_LIMIT = u64::MAX;
        die_violation("no-progress", "a call into the library did not finish within its step budget");
    }
    if COUNTDOWN != u64::MAX {
        if COUNTDOWN == 0 {
            sched::preempt();
        } else {
            COUNTDOWN -= 1;
        }
    }
}

/// Ends the run with a violation from a place where nothing can be unwound.
pub fn die_violation(class: &str, msg: &str) -> ! {
    unsafe {
        IN_RUN = false;
        crate::runner::write_out(&mut *CUR, Some((class, msg)));
        sys::_exit(0)
    }
}
pub fn harness_error(msg: &str) -> ! {
    unsafe {
        IN_RUN = false;
        eprintln!("HARNESS-ERROR: {msg}");
        sys::_exit(77)
    }
}

// ------------------------------------------------------------------------------- clock

#[repr(C)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}

pub struct Clock {
    pub real_ns: i128,
    pub mono_ns: i128,
    /// the simulated clock moves by this much at every reading (a slow or stalled process)
    pub tick_ns: i128,
    pub reads: u64,
    pub log: Vec<i128>,
}
pub static mut CLOCK: Clock =
    Clock { real_ns: 0, mono_ns: 0, tick_ns: 0, reads: 0, log: Vec::new() };

pub fn clock() -> &'static mut Clock {
    unsafe { &mut *std::ptr::addr_of_mut!(CLOCK) }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    if !IN_RUN {
        return sys::ret_errno(sys::raw(sys::SYS_CLOCK_GETTIME, id as i64, t as i64, 0, 0, 0, 0)) as i32;
    }
    let c = clock();
    c.reads += 1;
    let ns = if id == 0 || id == 5 {
        if c.log.len() < 65536 {
            c.log.push(c.real_ns);
        }
        let v = c.real_ns;
        c.real_ns += c.tick_ns;
        v
    } else {
        c.mono_ns += 1;
        c.mono_ns
    };
    (*t).sec = ns.div_euclid(1_000_000_000) as i64;
    (*t).nsec = ns.rem_euclid(1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut Timespec, _tz: *mut u8) -> i32 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    let r = clock_gettime(0, &mut t);
    (*tv).sec = t.sec;
    (*tv).nsec = t.nsec / 1000;
    r
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    clock_gettime(0, &mut t);
    if !p.is_null() {
        *p = t.sec;
    }
    t.sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, _rem: *mut Timespec) -> i32 {
    if !IN_RUN {
        return sys::ret_errno(sys::raw(35, req as i64, 0, 0, 0, 0, 0)) as i32;
    }
    let c = clock();
    let d = (*req).sec as i128 * 1_000_000_000 + (*req).nsec as i128;
    c.real_ns += d;
    c.mono_ns += d;
    sched::yield_now();
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    _id: i32,
    _fl: i32,
    req: *const Timespec,
    rem: *mut Timespec,
) -> i32 {
    nanosleep(req, rem)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    sched::yield_now();
    0
}

// ------------------------------------------------------------------------------- randomness

pub static mut HASH_SEED: u64 = 1;
pub static mut HASH_READS: u64 = 0;

#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, l: usize, f: u32) -> isize {
    if !IN_RUN {
        return sys::ret_errno(sys::raw(318, b as i64, l as i64, f as i64, 0, 0, 0)) as isize;
    }
    HASH_READS += 1;
    for i in 0..l {
        HASH_SEED = HASH_SEED.wrapping_add(0x9E37_79B9_7F4A_7C15);
        *b.add(i) = crate::rng::mix(HASH_SEED) as u8;
    }
    l as isize
}

// ------------------------------------------------------------------------------- futex

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64,
) -> i64 {
    if n == sys::SYS_FUTEX && sched::managed() {
        let op = b & 127;
        match op {
            0 | 9 => return sched::futex_wait(a as *const u32, c as u32, d != 0),
            1 | 10 => return sched::futex_wake(a as *const u32, c as u32),
            _ => {}
        }
    }
    if n == 318 {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    sys::ret_errno(sys::raw(n, a, b, c, d, e, f))
}

// ------------------------------------------------------------------------------- panics

thread_local! { static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string payload>".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}
pub fn last_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take().unwrap_or_default())
}

/// Payload of a panic injected by the simulator (a fault), distinguishable from the library's own.
pub struct Injected(pub u64);

/// Library steps one call may take before it counts as not making progress.
pub const CALL_STEPS: u64 = 100_000_000;

/// Thrown by a reference model where the terms it was given mean nothing.
pub struct Refusal(pub &'static str);
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    budget(CALL_STEPS);
    match catch_unwind(AssertUnwindSafe(|| lib(f))) {
        Ok(v) => Ok(v),
        Err(p) => {
            unsafe { LIB = false };
            if let Some(i) = p.downcast_ref::<Injected>() {
                last_panic();
                return Err(format!("injected#{}", i.0));
            }
            if let Some(r) = p.downcast_ref::<Refusal>() {
                last_panic();
                return Err(r.0.into());
            }
            let (m, loc) = last_panic();
            if harness_location(&loc) {
                harness_error(&format!("harness panic at {loc}: {m}"));
            }
            Err(m)
        }
    }
}
pub fn harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.starts_with("core/") || loc.contains("/sim/")
}
pub fn budget(steps: u64) {
    unsafe { STEP_LIMIT = STEPS.saturating_add(steps) }
}
pub fn cur() -> &'static mut Ctx {
    unsafe { &mut *CUR }
}
