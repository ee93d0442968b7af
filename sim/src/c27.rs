//! C27: a live yield curve, implemented by the caller on the library's traits: its reference date rolls,
//! its zero yields move, stall and fail while it is being asked. What the library derives from it
//! (discounts by date, discounts from zero yields, forward rates over a period) is derived from what the
//! curve said during that call and from the question as it was asked.
use crate::gen::*;
use crate::model::*;
use crate::ops::UNITS;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::frequency::Frequency;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::timeunit::TimeUnit as U;
use rust_quantlib::rates::compounding::Compounding;
use rust_quantlib::rates::interestrate::InterestRate;
use rust_quantlib::termstructures::termstructure::TermStructure;
use rust_quantlib::termstructures::yieldtermstructure::YieldTermStructure;
use rust_quantlib::termstructures::zeroyieldstructure::ZeroYieldStructure;
use simcore::sched::{run_threads, yield_now, Opts};
use simcore::seams::{catch, cur, harness, Injected};
use simcore::{check, ev, Ctx, Res};
use std::cell::{Cell, RefCell};

/// What a market says: today, and continuously compounded zero yields `a + b t`.
#[derive(Clone, Copy, Debug)]
struct Market {
    today: i32,
    a: f64,
    b: f64,
}
impl Market {
    fn zero(&self, t: f64) -> f64 {
        self.a + self.b * t
    }
    fn time(&self, d: i32) -> f64 {
        (d - self.today) as f64 / 365.0
    }
    fn discount(&self, t: f64) -> f64 {
        if t == 0.0 { 1.0 } else { (-self.zero(t) * t).exp() }
    }
}
const YEARS: f64 = 40.0;
struct Curve {
    /// every state the market was ever in; the last one is current
    said: RefCell<Vec<Market>>,
    stall: Cell<u32>,
    fail: Cell<u32>,
    /// a move of the market in the middle of the next call
    moves: Cell<Option<Market>>,
}
impl Curve {
    fn now(&self) -> Market {
        *self.said.borrow().last().unwrap()
    }
    /// Everything the curve is asked passes here.
    fn asked(&self) -> Market {
        if self.fail.get() > 0 {
            self.fail.set(self.fail.get() - 1);
            if self.fail.get() == 0 {
                cur().fault("curve-fails");
                std::panic::panic_any(Injected(27));
            }
        }
        let m = self.now();
        if let Some(n) = self.moves.take() {
            cur().fault("market-moves-during-call");
            self.said.borrow_mut().push(n);
        }
        for _ in 0..self.stall.get() {
            cur().fault("curve-stalls");
            yield_now();
        }
        m
    }
    fn in_range(&self, t: f64, extrapolate: bool) {
        if t < 0.0 || (t > YEARS && !extrapolate) {
            std::panic::panic_any(Injected(28));
        }
    }
}
impl TermStructure for Curve {
    fn time_from_references(&self, date: &Date) -> f64 {
        harness(|| self.asked().time(date.serial_number()))
    }
    fn max_date(&self) -> Date {
        harness(|| dt(self.asked().today + (YEARS * 365.0) as i32))
    }
    fn max_time(&self) -> f64 {
        YEARS
    }
    fn reference_date(&self) -> Date {
        harness(|| dt(self.asked().today))
    }
    fn settlement_days(&self) -> u32 {
        2
    }
}
impl ZeroYieldStructure for Curve {
    fn zero_yield(&self, time: f64) -> f64 {
        harness(|| self.asked().zero(time))
    }
}
/// An answer that shows the whole question.
fn quote(m: &Market, from: i32, to: i32, dcx: &DayCounter, comp: Compounding, freq: Frequency) -> InterestRate {
    let g = m.discount(m.time(from)) / m.discount(m.time(to));
    InterestRate::new((g - 1.0) + 1e-4 * (from % 97) as f64, dcx.clone(), comp, freq)
}
impl YieldTermStructure for Curve {
    fn discount_frome_time(&self, time: f64, extrapolate: bool) -> f64 {
        harness(|| {
            self.in_range(time, extrapolate);
            self.asked().discount(time)
        })
    }
    fn zero_rate_from_date(&self, date: &Date, dcx: &DayCounter, comp: Compounding, freq: Frequency, _: bool) -> InterestRate {
        harness(|| quote(&self.asked(), self.now().today, date.serial_number(), dcx, comp, freq))
    }
    fn zero_rate_from_time(&self, time: f64, comp: Compounding, freq: Frequency, _: bool) -> InterestRate {
        harness(|| InterestRate::new(self.asked().zero(time), dc(0), comp, freq))
    }
    fn forward_rate_from_dates(&self, d1: &Date, d2: &Date, dcx: &DayCounter, comp: Compounding, freq: Frequency, extrapolate: bool) -> InterestRate {
        harness(|| {
            let m = self.asked();
            self.in_range(m.time(d2.serial_number()), extrapolate);
            quote(&m, d1.serial_number(), d2.serial_number(), dcx, comp, freq)
        })
    }
    fn forward_rate_from_times(&self, t1: f64, t2: f64, comp: Compounding, freq: Frequency, _: bool) -> InterestRate {
        harness(|| {
            let m = self.asked();
            InterestRate::new(m.discount(t1) / m.discount(t2), dc(0), comp, freq)
        })
    }
    fn jump_dates(&self) -> Vec<Date> {
        vec![]
    }
    fn jump_times(&self) -> Vec<f64> {
        vec![]
    }
}

#[derive(Clone, Copy, Debug)]
enum Ask {
    ByDate(i32, bool),
    FromZero(f64),
    Forward { from: i32, n: i32, unit: U, dc: usize, comp: usize, freq: Frequency, far: bool },
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Move(Market),
    MoveInCall(Market),
    Stall(u32),
    Fail(u32),
    Ask(Ask),
}
fn draw_market(c: &mut Ctx, near: i32) -> Market {
    let today = if near == 0 { any_date(c, ser(1920, 1, 1), ser(2090, 1, 1)) } else { near + c.range(-3, 8) as i32 };
    let (a, b) = match c.below(4) {
        0 => (-c.real(0.0, 0.01), c.real(-0.001, 0.001)),
        1 => (c.pick(&[0.0, 0.05]), 0.0),
        _ => (c.real(0.0, 0.08), c.real(-0.001, 0.002)),
    };
    Market { today, a, b }
}
fn ask(curve: &Curve, q: &Ask) -> Result<(u64, String), String> {
    catch(|| match *q {
        Ask::ByDate(d, far) => (curve.discount_from_date(&dt(d), far).to_bits(), String::new()),
        Ask::FromZero(t) => (ZeroYieldStructure::discount(curve, t).to_bits(), String::new()),
        Ask::Forward { from, n, unit, dc: k, comp: p, freq, far } => {
            let r = curve.forward_rate_from_date_period(&dt(from), &Period::new(n, unit), &dc(k), comp(p), freq, far);
            (r.rate.to_bits(), format!("{:?} {:?} {:?}", r.daycounter, r.compounding, r.frequency))
        }
    })
}
/// What the curve's own answers make of the question, if the market was as `m` says (as `z` when asked again).
fn want(q: &Ask, m: &Market, z: &Market) -> Result<(f64, String), ()> {
    Ok(match *q {
        Ask::ByDate(d, far) => {
            let t = m.time(d);
            if t < 0.0 || (t > YEARS && !far) {
                return Err(());
            }
            (z.discount(t), String::new())
        }
        Ask::FromZero(t) => (m.discount(t), String::new()),
        Ask::Forward { from, n, unit, dc: k, comp: p, freq, far } => {
            let to = crate::sch::shift(from, n, unit, false);
            let t = m.time(to);
            if t < 0.0 || (t > YEARS && !far) {
                return Err(());
            }
            let r = quote(m, from, to, &dc(k), comp(p), freq);
            (r.rate, format!("{:?} {:?} {:?}", r.daycounter, r.compounding, r.frequency))
        }
    })
}
fn near(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a - b).abs() <= 4.0 * f64::EPSILON * (1.0 + a.abs().max(b.abs()))
}

pub fn run(c: &mut Ctx) -> Res {
    let m0 = draw_market(c, 0);
    let nc = 1 + c.idx(2);
    let curves: Vec<Curve> = (0..nc)
        .map(|i| Curve { said: RefCell::new(vec![if i == 0 { m0 } else { draw_market(c, m0.today) }]), stall: Cell::new(0), fail: Cell::new(0), moves: Cell::new(None) })
        .collect();
    let (f_fail, f_stall, f_in_call) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 2));
    let nt = 1 + c.idx(3);
    let mut plans: Vec<Vec<(usize, Op)>> = vec![];
    let mut today = m0.today;
    for _ in 0..nt {
        let n = 3 + c.tail(10);
        let mut plan = vec![];
        for _ in 0..n {
            let k = c.idx(nc);
            plan.push((k, match c.below(9) {
                0 => {
                    let m = draw_market(c, today);
                    today = m.today;
                    Op::Move(m)
                }
                1 if f_in_call => Op::MoveInCall(draw_market(c, today)),
                2 if f_stall => Op::Stall(c.range(0, 3) as u32),
                3 if f_fail => Op::Fail(c.range(1, 2) as u32),
                4 | 5 => Op::Ask(Ask::FromZero(match c.below(5) {
                    0 => 0.0,
                    1 => c.pick(&[1e-12, 1e-6, 1.0 / 365.0, -0.25, -0.0]),
                    2 => c.pick(&[0.25, 0.5, 1.0, 2.0, 5.0, 10.0, 30.0, -1.0, YEARS]),
                    _ => c.real(0.0, 60.0),
                })),
                6 | 7 => Op::Ask(Ask::ByDate(today + match c.below(4) {
                    0 => c.range(-3, 3) as i32,
                    1 => (YEARS * 365.0) as i32 + c.range(-9, 400) as i32,
                    _ => c.range(0, 14_000) as i32,
                }, c.chance(1, 2))),
                _ => {
                    let unit = c.pick(&UNITS);
                    let n = match unit { U::Days => c.range(0, 700), U::Weeks => c.range(0, 100), U::Months => c.range(0, 80), _ => c.range(0, 45) } as i32;
                    // a period may lead back
                    let n = if c.chance(1, 6) { -(n % 15) } else { n };
                    let far = c.pick(&[5, 500, 9000]);
                    let from = any_date(c, today, today + far);
                    Op::Ask(Ask::Forward { from, n, unit, dc: c.idx(N_DC), comp: c.idx(5), freq: c.pick(&FREQS), far: c.chance(1, 2) })
                }
            }));
        }
        plans.push(plan);
    }
    struct Read {
        k: usize,
        q: Ask,
        from: usize,
        to: usize,
        got: Result<(u64, String), String>,
    }
    let log: RefCell<Vec<Read>> = Default::default();
    let (cr, lr) = (&curves, &log);
    let fs: Vec<Box<dyn FnOnce() + '_>> = plans
        .iter()
        .map(|plan| {
            Box::new(move || {
                for (k, op) in plan {
                    let cv = &cr[*k];
                    match op {
                        Op::Move(m) => cv.said.borrow_mut().push(*m),
                        Op::MoveInCall(m) => cv.moves.set(Some(*m)),
                        Op::Stall(n) => cv.stall.set(*n),
                        Op::Fail(n) => cv.fail.set(*n),
                        Op::Ask(q) => {
                            let from = cv.said.borrow().len() - 1;
                            let got = ask(cv, q);
                            lr.borrow_mut().push(Read { k: *k, q: *q, from, to: cv.said.borrow().len() - 1, got });
                        }
                    }
                }
            }) as Box<dyn FnOnce() + '_>
        })
        .collect();
    run_threads(Opts { quantum: c.pick(&[2, 8, 40]), stall_den: c.pick(&[0, 5]), max_preemptions: 200 }, fs);
    let judge = |c: &mut Ctx, r: &Read, when: &str| -> Res {
        let said = curves[r.k].said.borrow();
        let held = &said[r.from..=r.to];
        ev!(c, "{when}: curve {} {:?} {}..{} -> {:?}", r.k, r.q, r.from, r.to, r.got);
        let pairs = || (0..held.len()).flat_map(|i| (i..held.len()).map(move |j| (i, j)));
        match &r.got {
            Ok((v, terms)) => {
                let v = f64::from_bits(*v);
                let ok = pairs().any(|(i, j)| matches!(want(&r.q, &held[i], &held[j]), Ok((w, t)) if near(v, w) && t == *terms));
                check!(ok, "derived", "{when}: {:?} is {v} {terms}; the curve says {:?}", r.q, pairs().map(|(i, j)| want(&r.q, &held[i], &held[j])).collect::<Vec<_>>());
                c.probe(if held.len() > 1 { "moved-during-call" } else { "answered" });
            }
            Err(m) if m.contains("28") => {
                let ok = held.iter().any(|m| want(&r.q, m, m).is_err());
                check!(ok, "refused", "{when}: {:?} was refused, the curve covers it", r.q);
                c.probe("out-of-range");
            }
            Err(m) => check!(m.starts_with("injected") && when == "live", "panic", "{when}: {:?} failed: {m}", r.q),
        }
        Ok(())
    };
    for r in log.borrow().iter() {
        judge(c, r, "live")?;
    }
    // once the faults stop, every question has the answer of the curve as it stands
    for cv in &curves {
        cv.fail.set(0);
        cv.stall.set(0);
        cv.moves.set(None);
    }
    for (k, op) in plans.iter().flatten() {
        if let Op::Ask(q) = op {
            let from = curves[*k].said.borrow().len() - 1;
            let got = ask(&curves[*k], q);
            judge(c, &Read { k: *k, q: *q, from, to: from, got }, "settled")?;
        }
    }
    c.sig(log.borrow().iter().fold(nt as u64, |h, r| simcore::rng::mix(h ^ (r.got.is_ok() as u64) << 3 ^ ((r.to - r.from) as u64) << 4 ^ match r.q { Ask::ByDate(_, far) => 1 + far as u64, Ask::FromZero(t) => 3 + (t == 0.0) as u64, Ask::Forward { far, .. } => 5 + far as u64 })));
    c.nontrivial = !log.borrow().is_empty();
    Ok(())
}
