//! Seeded cooperative scheduler over real threads running the real code. Exactly one thread runs
//! at a time; control changes hands only at basic-block guards chosen by the seed, at blocking
//! futex calls, at sleeps and at thread end. Who runs next is always drawn from the run's choices.
use crate::seams::{cur, die_violation, COUNTDOWN};
use crate::sys;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAXT: usize = 8;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked(usize, bool),
    Stalled(u32),
    Done,
}

struct Sched {
    active: bool,
    n: usize,
    st: [St; MAXT],
    run: usize,
    /// mean number of basic blocks between preemptions
    quantum: u64,
    stall_den: u64,
    preemptions_left: u64,
    switches: u64,
    woken: [bool; MAXT],
}
static mut S: Sched = Sched {
    active: false,
    n: 0,
    st: [St::Done; MAXT],
    run: 0,
    quantum: 50,
    stall_den: 0,
    preemptions_left: 0,
    switches: 0,
    woken: [false; MAXT],
};
static BATON: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];

thread_local! { static TID: Cell<usize> = const { Cell::new(usize::MAX) }; }

fn s() -> &'static mut Sched {
    unsafe { &mut *std::ptr::addr_of_mut!(S) }
}
pub fn managed() -> bool {
    s().active && TID.try_with(|t| t.get() != usize::MAX).unwrap_or(false)
}
pub fn tid() -> usize {
    TID.with(|t| t.get())
}

fn give(i: usize) {
    BATON[i].store(1, SeqCst);
    unsafe { sys::futex_wake(BATON[i].as_ptr(), 1) };
}
fn take(i: usize) {
    loop {
        if BATON[i].swap(0, SeqCst) == 1 {
            return;
        }
        unsafe { sys::futex_wait(BATON[i].as_ptr(), 0) };
    }
}

fn draw_quantum() {
    let sc = s();
    unsafe {
        COUNTDOWN = if sc.preemptions_left == 0 {
            u64::MAX
        } else {
            sc.preemptions_left -= 1;
            1 + cur().below(2 * sc.quantum)
        };
    }
}

/// Chooses who runs next; `usize::MAX` when nobody can.
fn choose() -> usize {
    let sc = s();
    for i in 0..sc.n {
        if let St::Stalled(k) = sc.st[i] {
            sc.st[i] = if k == 0 { St::Ready } else { St::Stalled(k - 1) };
        }
    }
    let ready: Vec<usize> = (0..sc.n).filter(|&i| sc.st[i] == St::Ready).collect();
    if !ready.is_empty() {
        return if ready.len() == 1 { ready[0] } else { ready[cur().idx(ready.len())] };
    }
    // a stalled caller only delays the others: when nobody else can run it comes back
    if let Some(i) = (0..sc.n).find(|&i| matches!(sc.st[i], St::Stalled(_))) {
        sc.st[i] = St::Ready;
        cur().probe("stalled-holder-resumed");
        return i;
    }
    if let Some(i) = (0..sc.n).find(|&i| matches!(sc.st[i], St::Blocked(_, true))) {
        sc.st[i] = St::Ready; // timed wait expires: simulated time passes
        crate::seams::clock().mono_ns += 1_000_000_000;
        return i;
    }
    usize::MAX
}

fn switch_from(me: usize) {
    let mode = unsafe { crate::seams::LIB };
    unsafe {
        COUNTDOWN = u64::MAX;
        crate::seams::LIB = false
    };
    let nx = choose();
    if nx == usize::MAX {
        if (0..s().n).all(|i| s().st[i] == St::Done) {
            give(MAXT);
            return;
        }
        die_violation("deadlock", "every remaining caller is blocked");
    }
    if nx != me {
        s().switches += 1;
        s().run = nx;
        let sw = s().switches;
        cur().sig((sw << 32) ^ ((me as u64) << 8) ^ nx as u64 ^ (unsafe { crate::seams::STEPS } << 40));
        give(nx);
        if s().st[me] != St::Done {
            take(me);
        } else {
            return;
        }
    }
    draw_quantum();
    unsafe { crate::seams::LIB = mode };
}

pub fn preempt() {
    unsafe { COUNTDOWN = u64::MAX };
    if !managed() {
        return;
    }
    let me = tid();
    let sc = s();
    if sc.stall_den > 0 && cur().chance(1, sc.stall_den) {
        let k = 5 + cur().below(40) as u32;
        sc.st[me] = St::Stalled(k);
        cur().fault("caller-stalled-mid-call");
    } else {
        cur().fault("preemption");
    }
    switch_from(me);
}
pub fn yield_now() {
    if managed() {
        unsafe { COUNTDOWN = u64::MAX };
        switch_from(tid());
    }
}
pub fn futex_wait(addr: *const u32, val: u32, timed: bool) -> i64 {
    let me = tid();
    unsafe {
        if (*(addr as *const AtomicU32)).load(SeqCst) != val {
            *sys::__errno_location() = 11;
            return -1;
        }
    }
    s().st[me] = St::Blocked(addr as usize, timed);
    s().woken[me] = false;
    cur().probe("blocked-on-lock");
    switch_from(me);
    if s().woken[me] {
        0
    } else {
        unsafe { *sys::__errno_location() = if timed { 110 } else { 4 } };
        -1
    }
}
pub fn futex_wake(addr: *const u32, n: u32) -> i64 {
    let sc = s();
    let mut k = 0;
    for i in 0..sc.n {
        if k < n as i64 && matches!(sc.st[i], St::Blocked(a, _) if a == addr as usize) {
            sc.st[i] = St::Ready;
            sc.woken[i] = true;
            k += 1;
        }
    }
    k
}

pub struct Opts {
    pub quantum: u64,
    pub stall_den: u64,
    pub max_preemptions: u64,
}

struct SendBox<'a>(Box<dyn FnOnce() + 'a>);
unsafe impl Send for SendBox<'_> {}

/// Runs the closures as simulated callers until all have finished.
pub fn run_threads<'a>(o: Opts, fs: Vec<Box<dyn FnOnce() + 'a>>) {
    let n = fs.len();
    assert!(n <= MAXT && n > 0);
    {
        let sc = s();
        sc.n = n;
        sc.quantum = o.quantum.max(1);
        sc.stall_den = o.stall_den;
        sc.preemptions_left = o.max_preemptions;
        sc.switches = 0;
        for i in 0..n {
            sc.st[i] = St::Ready;
        }
    }
    let mut hs = vec![];
    for (i, f) in fs.into_iter().enumerate() {
        let f: SendBox<'static> = unsafe { std::mem::transmute(SendBox(f)) };
        hs.push(std::thread::spawn(move || {
            let f = f;
            TID.with(|t| t.set(i));
            take(i);
            unsafe { crate::seams::LIB = false };
            draw_quantum();
            (f.0)();
            unsafe { COUNTDOWN = u64::MAX };
            s().st[i] = St::Done;
            switch_from(i);
            TID.with(|t| t.set(usize::MAX));
        }));
    }
    s().active = true;
    let first = choose();
    s().run = first;
    give(first);
    take(MAXT);
    s().active = false;
    for h in hs {
        let _ = h.join();
    }
    let sw = s().switches;
    cur().count("context-switches", sw);
}
