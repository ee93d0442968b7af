//! Runs one piece of work in a process of its own, forked from the (single-threaded) run before
//! anything else happened in it: what it answers cannot depend on any history.
use crate::ctx::{Shm, CUR};
use crate::seams;
use crate::sys;

const CAP: usize = 1 << 16;

pub fn isolated(f: impl FnOnce() -> String) -> String {
    thread_local! { static BUF: std::cell::Cell<*mut u8> = const { std::cell::Cell::new(std::ptr::null_mut()) }; }
    unsafe {
        let mut b = BUF.with(|x| x.get());
        if b.is_null() {
            b = sys::shared(CAP + 16);
            BUF.with(|x| x.set(b));
        }
        *(b as *mut u64) = u64::MAX;
        let pid = sys::fork();
        if pid == 0 {
            // nothing this process does may reach the run's own record
            (**CUR).shm = sys::shared(std::mem::size_of::<Shm>()) as *mut Shm;
            let s = f();
            let n = s.len().min(CAP);
            std::ptr::copy_nonoverlapping(s.as_ptr(), b.add(8), n);
            *(b as *mut u64) = n as u64;
            sys::_exit(0);
        }
        if pid < 0 {
            seams::harness_error("fork failed");
        }
        let mut st = 0;
        while sys::waitpid(pid, &mut st, 0) != pid {}
        if (st >> 8) & 0xff == 77 {
            seams::harness_error("isolated work failed");
        }
        let n = *(b as *const u64);
        if n == u64::MAX {
            return format!("died ({st:x})");
        }
        String::from_utf8_lossy(std::slice::from_raw_parts(b.add(8), n as usize)).into_owned()
    }
}
