//! Raw system interface. simcore interposes several libc symbols (see seams.rs), so everything
//! the simulator itself needs from the kernel goes through inline `syscall` instructions or
//! libc functions that are not interposed.
use std::arch::asm;

extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn alarm(s: u32) -> u32;
    pub fn setrlimit(r: i32, lim: *const [u64; 2]) -> i32;
    pub fn __errno_location() -> *mut i32;
    pub fn setpriority(which: i32, who: u32, prio: i32) -> i32;
}

pub const SYS_FUTEX: i64 = 202;
pub const SYS_CLOCK_GETTIME: i64 = 228;

#[inline(always)]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

pub unsafe fn ret_errno(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

pub fn shared(len: usize) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0);
        assert!(p as isize != -1, "mmap failed");
        p
    }
}

/// Real (not simulated) monotonic time, for the runner's budgets and the evidence only.
pub fn real_now() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { raw(SYS_CLOCK_GETTIME, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0) };
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

pub unsafe fn futex_wait(p: *const u32, val: u32) {
    raw(SYS_FUTEX, p as i64, 128, val as i64, 0, 0, 0);
}
pub unsafe fn futex_wake(p: *const u32, n: i64) {
    raw(SYS_FUTEX, p as i64, 129, n, 0, 0, 0);
}
