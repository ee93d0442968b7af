//! C05: what a solver returns is a root, whatever happened around the call: earlier calls that
//! failed, a function that itself uses the same solver, several callers interleaved.
use crate::solv::*;
use simcore::sched::{run_threads, Opts};
use simcore::seams::{catch, cur, harness, lib, Injected};
use simcore::{check, ev, Ctx, Res};
use std::cell::Cell;

#[derive(Clone, Debug)]
struct Job {
    cfg: Cfg,
    wild: Option<Wild>,
    sm: Smooth,
    bracketed: bool,
    lo: f64,
    hi: f64,
    guess: f64,
    step: f64,
    acc: f64,
    /// 0 none, n: nested use of the same solver at every n-th evaluation
    nested: u64,
    stall: bool,
    excluded: bool,
    /// the derivative is stated this much too steep
    told: f64,
}

fn draw_job(c: &mut Ctx) -> Job {
    let kind = c.idx(3);
    let root = c.real(-40.0, 40.0);
    // now and then the root is an end of the bracket, or a whole step from the guess
    let edge = c.chance(1, 8);
    let root = if edge { (root * 64.0).round() / 64.0 } else { root };
    // or far from zero
    let far = !edge && c.chance(1, 8);
    let root = if far { root * c.pick(&[100.0, 2500.0, 1e5]) } else { root };
    let (l, r) = (c.real(0.02, 8.0), c.real(0.02, 8.0));
    let (lo, hi) = match c.below(4) {
        0 if edge => (root, root + r),
        1 if edge => (root - l, root),
        _ => (root - l, root + r),
    };
    let wild = (kind == 0 && c.chance(1, 3)).then(|| Wild::draw(c, lo, hi));
    let bracketed = wild.is_some() || c.chance(1, 2);
    let step = c.pick(&[0.1, 0.01, 1.0, 4.0]);
    let bounds = c.chance(1, 3);
    let excluded = !bracketed && c.chance(1, 8);
    let (lo_on, hi_on) = if excluded {
        (true, false)
    } else if bounds {
        (c.chance(1, 2), c.chance(1, 2))
    } else {
        (false, false)
    };
    let w = hi - lo;
    let sm = Smooth::draw(c, root, w);
    // bounds: the bracket itself, or (excluded) a lower bound above the root
    let blo = if excluded { root + 0.5 } else { lo };
    let away = c.pick(&[step, -step]);
    let guess = if edge && !bracketed && !excluded && (lo..=hi).contains(&(root + away)) {
        root + away
    } else if excluded { blo + c.real(0.1, 5.0) } else { c.real(lo + 0.01 * w, hi - 0.01 * w) };
    Job {
        cfg: Cfg { kind, lo: blo, hi, lo_on, hi_on, max: c.pick(&[100, 150]) },
        wild,
        sm,
        bracketed,
        lo,
        hi,
        guess,
        step,
        acc: if far { c.pick(&[1e-4, 1e-2, 1e-6]) } else { c.pick(&[1e-8, 1e-12, 1e-4, 1e-10]) },
        told: if kind == 1 && c.chance(1, 4) { c.pick(&[1.9, 1.5, 0.8, 1.05]) } else { 1.0 },
        nested: if !excluded && c.chance(1, 3) { 1 + c.below(5) } else { 0 },
        stall: c.chance(1, 4),
        excluded,
    }
}

fn solve(j: &Job, s: &dyn AnySolver) -> Result<f64, String> {
    let n = Cell::new(0u64);
    let inner = Cell::new(None);
    let f = |x: f64| {
        harness(|| {
            n.set(n.get() + 1);
            if j.nested > 0 && n.get() % j.nested == 0 {
                cur().fault("reentrant-use");
                let w = j.hi - j.lo;
                let z = j.lo + 0.4 * w;
                let r = lib(|| s.bracket(&|y| harness(|| y - z), &|_| 1.0, 1e-9, j.lo + 0.7 * w, j.lo, j.hi));
                if (r - z).abs() > 1e-8 {
                    inner.set(Some(r));
                }
            }
            if j.stall {
                cur().fault("service-stall");
                simcore::seams::clock().real_ns += 1_000_000_000;
                simcore::sched::yield_now();
            }
            match &j.wild {
                Some(w) => w.f(x),
                None => j.sm.f(x),
            }
        })
    };
    let d = |x: f64| harness(|| j.told * j.sm.d(x));
    let r = catch(|| {
        if j.bracketed {
            s.bracket(&f, &d, j.acc, j.guess, j.lo, j.hi)
        } else {
            s.guess(&f, &d, j.acc, j.guess, j.step)
        }
    });
    match inner.get() {
        Some(x) => Err(format!("nested call returned {x} instead of its root")),
        None => r,
    }
}

fn verdict(j: &Job, r: &Result<f64, String>, when: &str) -> Res {
    let who = format!("{} {when} ({}, {})", NAMES[j.cfg.kind], if j.bracketed { "bracketed" } else { "from a guess" }, if j.wild.is_some() { "wild" } else { "smooth" });
    if j.excluded {
        check!(r.is_err(), "bounds-ignored", "{who}: returned {r:?} although the only root {} is below the enforced bound {}", j.sm.root, j.cfg.lo);
        return Ok(());
    }
    match r {
        Ok(x) => match &j.wild {
            Some(w) => {
                let t = j.acc + 1e-13 * (1.0 + x.abs());
                let (a, b) = (w.f((x - t).max(j.lo)), w.f((x + t).min(j.hi)));
                check!(a * b <= 0.0 || w.f(*x).abs() < 1e-27, "not-a-root", "{who}: returned {x}, but f({x}) = {} and f does not change sign within the accuracy {}", w.f(*x), j.acc);
            }
            None => {
                let t = (j.told * j.sm.ratio() + 1.0) * j.acc + 1e-13 * (1.0 + x.abs()) * j.sm.ratio();
                check!((x - j.sm.root).abs() <= t || j.sm.f(*x).abs() < 1e-27, "not-a-root", "{who}: returned {x}, the root is {} (accuracy {})", j.sm.root, j.acc);
            }
        },
        // bracketing a wild function may legitimately run out of evaluations; it says so
        Err(m) if j.wild.is_some() => check!(!m.starts_with("nested"), "not-a-root", "{who}: {m}"),
        Err(m) if j.told != 1.0 => check!(!m.starts_with("nested"), "not-a-root", "{who}: {m}"),
        Err(m) => check!(false, "no-answer", "{who}: a function with a single sign change at {} was not solved: {m}", j.sm.root),
    }
    Ok(())
}

/// Invalid requests are refused, not answered.
fn invalid(c: &mut Ctx, j: &Job, s: &dyn AnySolver) -> Res {
    let f = |x: f64| harness(|| j.sm.f(x));
    let d = |x: f64| harness(|| j.sm.d(x));
    let w = j.hi - j.lo;
    // an end that is the root is the answer, whatever the guess
    let at_end = j.lo == j.sm.root || j.hi == j.sm.root;
    let (what, r) = match c.below(9) {
        2 | 3 | 7 | 8 if at_end => return Ok(()),
        7 => ("a guess that is the upper end", c.catch(|| s.bracket(&f, &d, j.acc, j.hi, j.lo, j.hi))),
        8 => ("a guess that is the lower end", c.catch(|| s.bracket(&f, &d, j.acc, j.lo, j.lo, j.hi))),
        6 => ("a range of one point", c.catch(|| s.bracket(&f, &d, j.acc, j.sm.root, j.sm.root, j.sm.root))),
        0 => ("no sign change", c.catch(|| s.bracket(&f, &d, j.acc, j.hi + 0.5, j.hi + 0.1, j.hi + 1.0))),
        1 => ("empty range", c.catch(|| s.bracket(&f, &d, j.acc, j.guess, j.hi, j.lo))),
        2 => ("guess above the bracket", c.catch(|| s.bracket(&f, &d, j.acc, j.hi + 0.1 * w, j.lo, j.hi))),
        3 => ("guess below the bracket", c.catch(|| s.bracket(&f, &d, j.acc, j.lo - 0.1 * w, j.lo, j.hi))),
        4 => ("accuracy 0", c.catch(|| s.bracket(&f, &d, 0.0, j.guess, j.lo, j.hi))),
        _ => ("negative accuracy", c.catch(|| s.guess(&f, &d, -1e-3, j.guess, j.step))),
    };
    c.fault("invalid-request");
    check!(r.is_err(), "invalid-accepted", "{}: request with {what} was answered {r:?}", NAMES[j.cfg.kind]);
    if j.cfg.lo_on && !j.excluded {
        let r = c.catch(|| s.bracket(&f, &d, j.acc, j.guess, j.lo - 1.0, j.hi));
        check!(r.is_err(), "invalid-accepted", "{}: bracket below the enforced lower bound was answered {r:?}", NAMES[j.cfg.kind]);
    }
    if j.cfg.hi_on && !j.excluded {
        let r = c.catch(|| s.bracket(&f, &d, j.acc, j.guess, j.lo, j.hi + 1.0));
        check!(r.is_err(), "invalid-accepted", "{}: bracket above the enforced upper bound was answered {r:?}", NAMES[j.cfg.kind]);
    }
    Ok(())
}

pub fn run(c: &mut Ctx) -> Res {
    let nt = 1 + c.idx(3);
    let jobs: Vec<Job> = (0..nt).map(|_| draw_job(c)).collect();
    let solvers: Vec<Box<dyn AnySolver>> = jobs.iter().map(|j| j.cfg.make()).collect();
    // a history of failures first
    for (j, s) in jobs.iter().zip(&solvers) {
        let k = c.below(4);
        for _ in 0..k {
            match c.below(3) {
                0 => {
                    let at = 1 + c.below(9);
                    let n = Cell::new(0);
                    c.fault("callback-panic");
                    let f = |x: f64| harness(|| { n.set(n.get() + 1); if n.get() == at { std::panic::panic_any(Injected(at)) } j.sm.f(x) });
                    let _ = c.catch(|| s.guess(&f, &|x| harness(|| j.sm.d(x)), 1e-12, j.guess, j.step));
                }
                1 => {
                    c.fault("answer-nan");
                    let r = c.catch(|| s.guess(&|_| f64::NAN, &|_| f64::NAN, 1e-9, 0.5, 0.1));
                    check!(r.is_err(), "invented-root", "{}: returned {r:?} for a function that is NaN everywhere", NAMES[j.cfg.kind]);
                }
                _ => invalid(c, j, &**s)?,
            }
        }
    }
    let out: Vec<std::cell::RefCell<Option<Result<f64, String>>>> = (0..nt).map(|_| Default::default()).collect();
    if nt == 1 {
        *out[0].borrow_mut() = Some(solve(&jobs[0], &*solvers[0]));
    } else {
        let o = Opts { quantum: c.pick(&[20, 3, 200]), stall_den: c.pick(&[0, 6]), max_preemptions: 200 };
        let fs: Vec<Box<dyn FnOnce() + '_>> = (0..nt)
            .map(|i| {
                let (j, s, o) = (&jobs[i], &solvers[i], &out[i]);
                Box::new(move || *o.borrow_mut() = Some(solve(j, &**s))) as Box<dyn FnOnce() + '_>
            })
            .collect();
        run_threads(o, fs);
    }
    for (i, j) in jobs.iter().enumerate() {
        let r = out[i].borrow().clone().unwrap();
        ev!(c, "{} root {} acc {} nested {} -> {:?}", NAMES[j.cfg.kind], j.sm.root, j.acc, j.nested, r.as_ref().map(|x| x.to_bits()).map_err(|m| m.chars().take(40).collect::<String>()));
        if r.is_ok() {
            c.probe("solved");
        }
        verdict(j, &r, if nt > 1 { "interleaved" } else { "alone" })?;
        // and the same request to a fresh solver, alone
        let r2 = solve(j, &*j.cfg.make());
        check!(r.as_ref().map(|x| x.to_bits()).ok() == r2.as_ref().map(|x| x.to_bits()).ok(), "history-dependent", "{}: {r:?} after failures and interleaving, {r2:?} fresh and alone", NAMES[j.cfg.kind]);
        invalid(c, j, &*solvers[i])?;
    }
    c.nontrivial = true;
    Ok(())
}
