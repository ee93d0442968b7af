//! Solvers behind one object-safe face, and families of functions for them to solve.
use crate::model::Draw;
use rust_quantlib::maths::solvers1d::brent::Brent;
use rust_quantlib::maths::solvers1d::finitedifferencenewtonsafe::FiniteDifferenceNewtonSafe;
use rust_quantlib::maths::solvers1d::newtonsafe::NewtonSafe;
use rust_quantlib::maths::solvers1d::solver1d::Solver1D;
use simcore::rng::mix;

pub type Fun<'a> = &'a dyn Fn(f64) -> f64;
pub trait AnySolver {
    fn guess(&self, f: Fun, d: Fun, acc: f64, guess: f64, step: f64) -> f64;
    fn bracket(&self, f: Fun, d: Fun, acc: f64, guess: f64, lo: f64, hi: f64) -> f64;
}
struct W<T>(T);
impl<T: Solver1D> AnySolver for W<T> {
    fn guess(&self, f: Fun, d: Fun, acc: f64, guess: f64, step: f64) -> f64 {
        self.0.solve(f, d, acc, guess, step)
    }
    fn bracket(&self, f: Fun, d: Fun, acc: f64, guess: f64, lo: f64, hi: f64) -> f64 {
        self.0.solve_bracketed(f, d, acc, guess, lo, hi)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub kind: usize,
    pub lo: f64,
    pub hi: f64,
    pub lo_on: bool,
    pub hi_on: bool,
    pub max: usize,
}
pub const NAMES: [&str; 3] = ["Brent", "NewtonSafe", "FiniteDifferenceNewtonSafe"];
impl Cfg {
    pub fn make(&self) -> Box<dyn AnySolver> {
        let Cfg { kind, lo, hi, lo_on, hi_on, max } = *self;
        match kind {
            0 if !lo_on && !hi_on => Box::new(W(Brent::default())),
            0 => Box::new(W(Brent::new(lo, hi, lo_on, hi_on))),
            1 if !lo_on && !hi_on && max == 100 => Box::new(W(NewtonSafe::default())),
            1 if !lo_on && !hi_on => Box::new(W(NewtonSafe::with_max_evaluations(max))),
            1 => Box::new(W(NewtonSafe::new(lo, hi, lo_on, hi_on, max))),
            _ if !lo_on && !hi_on => Box::new(W(FiniteDifferenceNewtonSafe::default())),
            _ => Box::new(W(FiniteDifferenceNewtonSafe::new(lo, hi, lo_on, hi_on))),
        }
    }
    /// Function evaluations one call may make: the solver's own limit plus housekeeping.
    pub fn cap(&self) -> u64 {
        match self.kind {
            0 => 100 + 3,
            1 => self.max as u64 + 3,
            _ => 2 * 100 + 3,
        }
    }
}

/// A continuous monotone function with a single known root and its derivative.
#[derive(Clone, Copy, Debug)]
pub struct Smooth {
    pub kind: u8,
    pub root: f64,
    pub a: f64,
    pub b: f64,
    pub w: f64,
    pub phi: f64,
}
impl Smooth {
    /// `reach`: largest |x - root| at which the function keeps its slope ratio.
    pub fn draw<D: Draw>(c: &mut D, root: f64, reach: f64) -> Smooth {
        let sign = if c.chance(1, 2) { -1.0 } else { 1.0 };
        let a = sign * c.pick(&[1.0, 0.02, 30.0, 3000.0, 0.7]);
        let w = c.pick(&[1.0, 0.2, 3.0]);
        Smooth {
            kind: c.below(5) as u8,
            root,
            a,
            b: match c.below(3) {
                0 => 0.0,
                1 => 0.5,
                _ => c.real(0.05, 0.6),
            },
            w: if reach > 0.0 { w } else { 1.0 },
            phi: c.real(0.0, 6.0),
        }
    }
    pub fn f(&self, x: f64) -> f64 {
        let z = x - self.root;
        match self.kind {
            0 => self.a * z,
            1 => self.a * (z + self.b / self.w * ((self.w * z + self.phi).sin() - self.phi.sin())),
            // slopes 1 and 1+b on the two sides of a kink off the root
            2 => {
                let k = self.b - 0.3;
                let g = |t: f64| if t < k { t } else { k + (t - k) * (1.0 + self.b) };
                self.a * (g(z) - g(0.0))
            }
            3 => self.a * (z + self.b * z.atan()),
            // capped and floored: far from the root every value is as far from zero as the other
            _ => self.a * z.clamp(-1.0 - self.b, 1.0 + self.b),
        }
    }
    pub fn d(&self, x: f64) -> f64 {
        let z = x - self.root;
        match self.kind {
            0 => self.a,
            1 => self.a * (1.0 + self.b * (self.w * z + self.phi).cos()),
            2 => self.a * if z < self.b - 0.3 { 1.0 } else { 1.0 + self.b },
            3 => self.a * (1.0 + self.b / (1.0 + z * z)),
            _ => if z.abs() < 1.0 + self.b { self.a } else { 0.0 },
        }
    }
    /// Largest ratio between two slopes of the function.
    pub fn ratio(&self) -> f64 {
        match self.kind {
            0 | 4 => 1.0,
            1 => (1.0 + self.b) / (1.0 - self.b),
            _ => 1.0 + self.b,
        }
    }
}

/// A continuous strictly monotone piecewise-linear function whose slopes vary over six decades:
/// nothing but the sign change guides a bracketing solver.
#[derive(Clone, Debug)]
pub struct Wild {
    pub knots: Vec<f64>,
    pub vals: Vec<f64>,
}
impl Wild {
    pub fn draw<D: Draw>(c: &mut D, lo: f64, hi: f64) -> Wild {
        let n = 3 + c.idx(6);
        let sign = if c.chance(1, 2) { -1.0 } else { 1.0 };
        let mut v = vec![0.0];
        let knots: Vec<f64> = (0..=n).map(|i| lo + (hi - lo) * i as f64 / n as f64).collect();
        for i in 0..n {
            let slope = 10f64.powi(c.range(-3, 3) as i32) * c.real(1.0, 9.0);
            let d = slope * (hi - lo) / n as f64;
            let last = v[i];
            v.push(last + d);
        }
        // shift so that the sign change falls inside a random piece
        let k = c.idx(n);
        let z = v[k] + (v[k + 1] - v[k]) * c.real(0.05, 0.95);
        Wild { knots, vals: v.iter().map(|x| sign * (x - z)).collect() }
    }
    pub fn f(&self, x: f64) -> f64 {
        let n = self.knots.len();
        let mut i = 0;
        while i + 2 < n && x > self.knots[i + 1] {
            i += 1;
        }
        let t = (x - self.knots[i]) / (self.knots[i + 1] - self.knots[i]);
        self.vals[i] + t * (self.vals[i + 1] - self.vals[i])
    }
}

/// A deterministic pseudo-random answer for (seed, x): finite, magnitude in [1e-6, 1e6].
pub fn noise(seed: u64, x: f64) -> f64 {
    let h = mix(seed ^ x.to_bits());
    let m = 10f64.powi((h % 13) as i32 - 6);
    if h & (1 << 40) != 0 { m } else { -m }
}
