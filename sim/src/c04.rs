//! C04: a solver against a faulty function service. The function and derivative handed to the
//! solver are a remote party under the simulator's control: it may answer NaN or infinities, answer
//! inconsistently, repeat a stale answer, stall, or panic in the middle of any evaluation.
use crate::solv::*;
use simcore::seams::{cur, harness, Injected};
use simcore::{check, ev, fail, Ctx, Res};
use std::cell::RefCell;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Base {
    Smooth,
    Wild,
    Noise,
    NoRoot,
    Flat,
    Cubic,
    /// defined on one side of a point only
    Partial,
}
#[derive(Clone, Copy, Default, Debug)]
struct Faults {
    nan: u64,
    inf: u64,
    flaky: u64,
    stale: u64,
    stall: u64,
    /// the evaluation (f or derivative, counted together) that panics; 0 = none
    panic_at: u64,
}
#[derive(Default)]
struct State {
    f_evals: u64,
    d_evals: u64,
    total: u64,
    after_panic: u64,
    panicked: bool,
    last: f64,
    all_finite: bool,
    consistent: bool,
    points: Vec<f64>,
    values: Vec<(f64, f64)>,
}

pub fn run(c: &mut Ctx) -> Res {
    let kind = c.idx(3);
    let (lo, width) = (c.real(-50.0, 50.0), c.pick(&[2.0, 0.5, 10.0, 60.0]));
    let hi = lo + width;
    let cfg = Cfg {
        kind,
        lo,
        hi,
        lo_on: c.chance(1, 3),
        hi_on: c.chance(1, 3),
        max: c.pick(&[100usize, 100, 30, 30, 5, 250, 250, 0]),
    };
    let cfg = if cfg.max == 0 { Cfg { max: c.idx(5), ..cfg } } else { cfg };
    let solver = cfg.make();
    ev!(c, "{} bounds [{lo}, {hi}] enforced {}/{} max {}", NAMES[kind], cfg.lo_on, cfg.hi_on, cfg.max);
    let calls = 1 + c.idx(4);
    let swarm: Vec<bool> = (0..6).map(|_| c.chance(1, 2)).collect();
    for call in 0..calls {
        let bracketed = c.chance(1, 2);
        let base = c.pick(&[Base::Smooth, Base::Wild, Base::Noise, Base::NoRoot, Base::Flat, Base::Cubic, Base::Partial]);
        let root = c.real(lo + 0.01 * width, hi - 0.01 * width);
        let sm = Smooth::draw(c, root, width);
        let wi = Wild::draw(c, lo, hi);
        let seed = c.below(1 << 32);
        let mut fl = Faults::default();
        if c.chance(2, 3) {
            if swarm[0] { fl.nan = c.pick(&[0, 20, 3, 1]) }
            if swarm[1] { fl.inf = c.pick(&[0, 20, 3]) }
            if swarm[2] { fl.flaky = c.pick(&[0, 10, 2]) }
            if swarm[3] { fl.stale = c.pick(&[0, 10, 2]) }
            if swarm[4] { fl.stall = c.pick(&[0, 4]) }
            if swarm[5] && c.chance(1, 2) { let m = c.pick(&[4, 20, 60]); fl.panic_at = 1 + c.below(m) }
        }
        let acc = c.pick(&[1e-8, 1e-3, 1e-12, 0.5]);
        let st = RefCell::new(State { all_finite: true, consistent: true, ..Default::default() });
        let cubic_root = if c.chance(1, 2) { root } else { lo + width / 2.0 };
        // an answer of the function service to one evaluation
        let answer = |x: f64, deriv: bool| -> f64 {
            harness(|| {
                let s = &mut *st.borrow_mut();
                if s.panicked {
                    s.after_panic += 1;
                    return 0.0;
                }
                s.total += 1;
                if deriv { s.d_evals += 1 } else { s.f_evals += 1 }
                if s.points.len() < 2000 {
                    s.points.push(x);
                }
                let c = cur();
                if fl.panic_at == s.total {
                    s.panicked = true;
                    c.fault("callback-panic");
                    std::panic::panic_any(Injected(call as u64 * 1000 + s.total));
                }
                let mut v = match (base, deriv) {
                    (Base::Smooth, false) => sm.f(x),
                    (Base::Smooth, true) => sm.d(x),
                    (Base::Wild, false) => wi.f(x),
                    (Base::Wild, true) => noise(seed, x),
                    (Base::Noise, false) => noise(seed, x),
                    (Base::Noise, true) => noise(seed + 1, x),
                    (Base::NoRoot, false) => 1.0 + (x - root).abs(),
                    (Base::NoRoot, true) => if x > root { 1.0 } else { -1.0 },
                    (Base::Flat, false) => if seed & 1 == 0 { 0.5 } else { -0.25 },
                    (Base::Flat, true) => 0.0,
                    (Base::Partial, false) => if (x > root) == (seed & 1 == 0) { f64::NAN } else { wi.f(x) },
                    (Base::Partial, true) => if (x > root) == (seed & 1 == 0) { f64::NAN } else { noise(seed, x) },
                    (Base::Cubic, false) => (x - cubic_root).powi(3),
                    (Base::Cubic, true) => 3.0 * (x - cubic_root).powi(2),
                };
                if fl.nan > 0 && c.chance(1, fl.nan) {
                    c.fault("answer-nan");
                    v = f64::NAN;
                } else if fl.inf > 0 && c.chance(1, fl.inf) {
                    c.fault("answer-infinite");
                    v = if c.chance(1, 2) { f64::INFINITY } else { f64::NEG_INFINITY };
                } else if fl.flaky > 0 && c.chance(1, fl.flaky) {
                    c.fault("answer-inconsistent");
                    s.consistent = false;
                    v = noise(c.below(1 << 20), x);
                } else if fl.stale > 0 && !deriv && s.f_evals > 1 && c.chance(1, fl.stale) {
                    c.fault("answer-stale");
                    s.consistent = false;
                    v = s.last;
                }
                if fl.stall > 0 && c.chance(1, fl.stall) {
                    c.fault("service-stall");
                    let d = c.below(100_000_000_000) as i128;
                    simcore::seams::clock().real_ns += d;
                    c.sim_ns += d as u128;
                }
                if !v.is_finite() {
                    s.all_finite = false;
                }
                if !deriv {
                    s.values.push((x, v));
                    s.last = v;
                }
                v
            })
        };
        let f = |x: f64| answer(x, false);
        let d = |x: f64| answer(x, true);
        let g = c.real(lo + 0.005 * width, hi - 0.005 * width);
        let g = if base == Base::Cubic && c.chance(1, 3) { cubic_root } else { g };
        let step = c.pick(&[0.1, 0.005, 2.0, 30.0]);
        let r = if bracketed {
            c.catch(|| solver.bracket(&f, &d, acc, g, lo, hi))
        } else {
            c.catch(|| solver.guess(&f, &d, acc, g, step))
        };
        let s = st.borrow();
        ev!(c, "call {call} {} {base:?} acc {acc} guess {g} -> {} after {} evaluations", if bracketed { "bracketed" } else { "guess" },
            match &r { Ok(x) => format!("{:016x}", x.to_bits()), Err(m) => format!("panic {}", &m[..m.len().min(30)]) }, s.total);
        let who = format!("{} call {call} ({}, {base:?})", NAMES[kind], if bracketed { "bracketed" } else { "from a guess" });
        check!(s.f_evals <= cfg.cap(), "too-many-evaluations", "{who}: {} function evaluations, limit {}", s.f_evals, cfg.cap());
        check!(s.d_evals <= cfg.cap(), "too-many-evaluations", "{who}: {} derivative evaluations, limit {}", s.d_evals, cfg.cap());
        check!(s.after_panic == 0, "evaluated-after-panic", "{who}: {} evaluations after the callback had panicked", s.after_panic);
        if s.panicked {
            c.probe("panic-crossed-solver");
            let want = format!("injected#{}", call as u64 * 1000 + s.total);
            check!(r.as_ref().err() == Some(&want), "panic-altered", "{who}: callback panicked, the caller saw {r:?}");
            continue;
        }
        if s.all_finite {
            // every point the function was asked at lies in the caller's bracket or bounds
            let slack = 1e-9 * (width + lo.abs() + hi.abs());
            let (a, b) = if bracketed {
                (lo, hi)
            } else {
                (if cfg.lo_on { lo } else { f64::NEG_INFINITY }, if cfg.hi_on { hi } else { f64::INFINITY })
            };
            if bracketed || s.consistent {
                if let Some(x) = s.points.iter().find(|x| !(**x >= a - slack && **x <= b + slack)) {
                    fail!("outside", "{who}: evaluated at {x}, outside [{a}, {b}]");
                }
                if let Ok(x) = &r {
                    check!(*x >= a - slack && *x <= b + slack, "outside", "{who}: returned {x}, outside [{a}, {b}]");
                }
            }
            if s.consistent && matches!(base, Base::NoRoot | Base::Flat) {
                check!(r.is_err(), "invented-root", "{who}: returned {r:?} for a function without a root");
                c.probe("no-root-reported");
            }
        }
        if let Ok(x) = &r {
            c.probe("returned");
            // the limit of the library's own comparison with zero
            let zero = |v: f64| v.abs() < 1e-27;
            let seen = |p: &dyn Fn(f64) -> bool| s.values.iter().any(|v| p(v.1));
            check!(seen(&zero) || (seen(&|v| v > 0.0) && seen(&|v| v < 0.0)), "invented-root", "{who}: returned {x}, but no two answers differ in sign");
            if bracketed {
                let at = |p: f64| s.values.iter().find(|v| v.0 == p).map(|v| v.1);
                let (a, b) = (at(lo), at(hi));
                let z = |v: Option<f64>| v.is_some_and(zero);
                let opposite = matches!((a, b), (Some(a), Some(b)) if (a < 0.0 && b > 0.0) || (a > 0.0 && b < 0.0));
                check!(z(a) || z(b) || opposite, "accepted-non-bracket", "{who}: returned {x} although the ends answered {a:?} and {b:?}");
                c.probe("bracket-accepted");
            }
            // what is returned is a point the function was asked at, or the exit step of the last one
            check!(!x.is_nan() || !s.all_finite, "nan-root", "{who}: returned NaN although every answer was finite");
        }
        c.sig(s.total << 16 | (kind as u64) << 12 | (base as u64) << 8 | (bracketed as u64) << 4 | (r.is_ok() as u64) << 3 | (s.all_finite as u64) << 2 | (s.consistent as u64) << 1 | s.panicked as u64);
    }
    // the same solver after all that, and a fresh one: identical answers and identical questions
    let root = c.real(lo + 0.05 * width, hi - 0.05 * width);
    let sm = Smooth::draw(c, root, width);
    let g = c.real(lo + 0.01 * width, hi - 0.01 * width);
    let br = c.chance(1, 2);
    let mut got = vec![];
    for fresh in [false, true] {
        let other;
        let s: &dyn AnySolver = if fresh { other = cfg.make(); &*other } else { &*solver };
        let asked = RefCell::new(vec![]);
        let f = |x: f64| harness(|| { asked.borrow_mut().push(x.to_bits()); sm.f(x) });
        let d = |x: f64| harness(|| { asked.borrow_mut().push(!x.to_bits()); sm.d(x) });
        let r = if br { c.catch(|| s.bracket(&f, &d, 1e-9, g, lo, hi)) } else { c.catch(|| s.guess(&f, &d, 1e-9, g, 0.1)) };
        got.push((r.map(|x| x.to_bits()), asked.into_inner()));
    }
    check!(got[0] == got[1], "solver-not-reusable", "{}: after {calls} earlier calls the answer is {:?} with {} questions, fresh {:?} with {}",
        NAMES[kind], got[0].0, got[0].1.len(), got[1].0, got[1].1.len());
    c.nontrivial = true;
    Ok(())
}
