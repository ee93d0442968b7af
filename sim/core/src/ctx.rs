//! One simulated run: its choices, its event log, its counters.
use crate::rng::{hash_bytes, mix, Rng};
use crate::seams;
use std::collections::BTreeMap;
use std::fmt::Write as _;

pub const MAX_CHOICES: usize = 1 << 18;
pub const OUT_CAP: usize = 8 << 20;
pub const COV_CAP: usize = 1 << 16;

/// Memory shared between a simulated run (its own forked process) and the runner.
#[repr(C)]
pub struct Shm {
    pub n_choices: u64,
    pub out_len: u64,
    pub done: u64,
    pub choices: [u64; MAX_CHOICES],
    pub out: [u8; OUT_CAP],
    /// basic blocks of the code under test reached by any run of this worker
    pub cov: [u8; COV_CAP],
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Violation>;

#[macro_export]
macro_rules! fail {
    ($class:expr, $($t:tt)*) => {
        return Err($crate::ctx::Violation { class: $class.to_string(), msg: format!($($t)*) })
    };
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($t:tt)*) => {
        if !$cond { $crate::fail!($class, $($t)*) }
    };
}

pub enum Source {
    Random(Rng),
    Replay(Vec<u64>, usize),
}

pub struct Inner {
    pub shm: *mut Shm,
    pub src: Source,
    pub hash: u64,
    pub events: u64,
    pub keep_trace: bool,
    pub trace: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub sigs: Vec<u64>,
    pub nontrivial: bool,
    pub sim_ns: u128,
    pub thorough: bool,
}

/// A handle: simulated code reaches the same run through `cur()` while a scenario holds its own
/// `&mut Ctx`, so the state itself lives behind a raw pointer.
pub struct Ctx {
    p: *mut Inner,
}
impl Ctx {
    pub fn new(i: Inner) -> Ctx {
        Ctx { p: Box::into_raw(Box::new(i)) }
    }
}
impl std::ops::Deref for Ctx {
    type Target = Inner;
    fn deref(&self) -> &Inner {
        unsafe { &*self.p }
    }
}
impl std::ops::DerefMut for Ctx {
    fn deref_mut(&mut self) -> &mut Inner {
        unsafe { &mut *self.p }
    }
}

/// Classes of recorded findings (known_findings.txt) of the property being checked.
pub static mut KNOWN: Vec<String> = Vec::new();
pub static mut CUR: *mut Ctx = std::ptr::null_mut();

impl Ctx {
    fn raw_draw(&mut self, n: u64) -> u64 {
        let shm = self.shm;
        let v = match &mut self.src {
            Source::Random(r) => {
                if n == 0 {
                    0
                } else {
                    ((r.next() as u128 * n as u128) >> 64) as u64
                }
            }
            Source::Replay(v, i) => {
                let x = v.get(*i).copied().unwrap_or(0);
                *i += 1;
                if n == 0 {
                    0
                } else {
                    x % n
                }
            }
        };
        unsafe {
            let s = &mut *shm;
            if (s.n_choices as usize) < MAX_CHOICES {
                s.choices[s.n_choices as usize] = v;
                s.n_choices += 1;
            } else {
                crate::seams::harness_error("choice log full");
            }
        }
        v
    }
    /// Uniform in [0, n); 0 is the simplest choice (the minimiser drives choices towards 0).
    pub fn below(&mut self, n: u64) -> u64 {
        self.raw_draw(n)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.raw_draw(n as u64) as usize
    }
    /// Uniform in [a, b].
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        debug_assert!(b >= a);
        a + self.raw_draw((b - a + 1) as u64) as i64
    }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.raw_draw(den) >= den - num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.idx(xs.len())]
    }
    /// Uniform float in [a, b) with 2^-30 granularity.
    pub fn real(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * (self.raw_draw(1 << 30) as f64 / (1u64 << 30) as f64)
    }
    /// Event log: the run's observable history. Never draws, never reads a clock.
    pub fn ev(&mut self, s: std::fmt::Arguments) {
        let mut line = String::new();
        let _ = line.write_fmt(s);
        let h = mix(self.hash ^ self.events);
        self.hash = hash_bytes(h, line.as_bytes());
        self.events += 1;
        if self.keep_trace && self.trace.len() < 4000 {
            self.trace.push(line);
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn fault(&mut self, kind: &str) {
        self.count(&format!("fault.{kind}"), 1);
    }
    /// A failure that may be a recorded finding: counted if it is listed, a violation if it is not.
    pub fn finding(&mut self, class: &str, msg: String) -> Res {
        if unsafe { (*std::ptr::addr_of!(KNOWN)).iter().any(|k| k == class) } {
            self.count(&format!("known.{class}"), 1);
            return Ok(());
        }
        Err(Violation { class: class.to_string(), msg })
    }
    pub fn probe(&mut self, name: &str) {
        self.count(&format!("probe.{name}"), 1);
    }
    pub fn sig(&mut self, v: u64) {
        if self.sigs.len() < 4096 {
            self.sigs.push(mix(v));
        }
    }
    pub fn sim_days(&mut self, d: u64) {
        self.sim_ns += d as u128 * 86_400_000_000_000;
    }
    /// Runs library code under the step budget; a panic of the library is a value.
    pub fn catch<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        seams::catch(f)
    }
}

#[macro_export]
macro_rules! ev {
    ($c:expr, $($t:tt)*) => { $c.ev(format_args!($($t)*)) };
}
