//! Cash flows with an independent reference: compounding, accrual and present value recomputed from
//! the flow's own terms, day counts (dayref.rs) included.
use crate::dayref;
use crate::model::*;
use rust_quantlib::cashflows::cashflow::CashFlow;
use rust_quantlib::cashflows::coupon::Coupon;
use rust_quantlib::cashflows::fixedratecoupon::FixedRateCoupon;
use rust_quantlib::cashflows::simplecashflow::{AmortizingPayment, Redemption, SimpleCashFlow};
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::daycounters::{actual360::Actual360, actual366::Actual366, one::One, thirty365::Thirty365};
use rust_quantlib::datetime::frequency::Frequency;
use rust_quantlib::rates::compounding::Compounding;
use rust_quantlib::rates::interestrate::InterestRate;
use std::rc::Rc;

pub const N_DC: usize = 15;
/// Day counters 0..3 are additive: t(a, c) = t(a, b) + t(b, c).
pub const N_ADDITIVE: usize = 3;
pub fn dc(i: usize) -> DayCounter {
    match i {
        0 => DayCounter::actual360(),
        1 => DayCounter::Actual366(Actual366::new()),
        2 => DayCounter::actual_actual_isda(),
        3 => DayCounter::usa(),
        4 => DayCounter::isma(),
        5 => DayCounter::european(),
        6 => DayCounter::italian(),
        7 => DayCounter::nasd(),
        8 => DayCounter::actual_actual_old_isma(),
        9 => DayCounter::simple(),
        10 => DayCounter::Thirty365(Thirty365::new()),
        11 => DayCounter::actual_actual_afb(),
        12 => DayCounter::Actual360(Actual360::with_last_day(true)),
        13 => DayCounter::Actual366(Actual366::with_last_day(true)),
        14 => DayCounter::One(One::new()),
        t => DayCounter::isda(dt(t as i32 - 1000)),
    }
}
pub const FREQS: [Frequency; 5] =
    [Frequency::Annual, Frequency::Semiannual, Frequency::Quarterly, Frequency::Monthly, Frequency::EveryFourthMonth];
pub const ALL_FREQS: [Frequency; 10] = [
    Frequency::Annual, Frequency::Semiannual, Frequency::EveryFourthMonth, Frequency::Quarterly, Frequency::Bimonthly, Frequency::Monthly,
    Frequency::EveryFourthWeek, Frequency::Biweekly, Frequency::Weekly, Frequency::Daily,
];
pub fn comp(i: usize) -> Compounding {
    match i {
        0 => Compounding::Simple,
        1 => Compounding::Compounded,
        2 => Compounding::Continuous,
        3 => Compounding::SimpleThenCompounded,
        _ => Compounding::CompoundedThenSimple,
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Rate {
    pub r: f64,
    pub dc: usize,
    pub comp: usize,
    pub freq: Frequency,
}
impl Rate {
    pub fn draw<D: Draw>(c: &mut D, simple: bool) -> Rate {
        let r = match c.below(6) {
            0 => 0.0,
            1 => -c.real(0.0, 0.01),
            _ => c.real(0.001, 0.12),
        };
        Rate { r, dc: c.idx(N_DC), comp: if simple && c.chance(2, 3) { 0 } else { c.idx(5) }, freq: if c.chance(3, 4) { c.pick(&FREQS) } else { c.pick(&ALL_FREQS) } }
    }
    pub fn lib(&self) -> InterestRate {
        InterestRate::new(self.r, dc(self.dc), comp(self.comp), self.freq)
    }
    /// Growth of one unit over t years.
    pub fn growth(&self, t: f64) -> f64 {
        let n = self.freq as i32 as f64;
        let simple = 1.0 + self.r * t;
        let compounded = (n * t * (self.r / n).ln_1p()).exp();
        match self.comp {
            0 => simple,
            1 => compounded,
            2 => (self.r * t).exp(),
            3 => if t <= 1.0 / n { simple } else { compounded },
            _ => if t > 1.0 / n { simple } else { compounded },
        }
    }
    pub fn yf(&self, a: i32, b: i32, ra: i32, rb: i32) -> f64 {
        dayref::fraction(self.dc, a, b, ra, rb)
    }
}
/// 0 stands for the null date.
pub fn d0(s: i32) -> Date {
    if s == 0 { Date::default() } else { dt(s) }
}
pub fn s0(d: Date) -> i32 {
    let s = d.serial_number();
    if s == MIN { 0 } else { s }
}

#[derive(Clone, Copy, Debug)]
pub struct Cpn {
    pub start: i32,
    pub end: i32,
    pub ref_a: i32,
    pub ref_b: i32,
    pub pay: i32,
    pub ex: i32,
    pub nominal: f64,
    pub rate: Rate,
}
impl Cpn {
    pub fn lib(&self) -> FixedRateCoupon {
        if self.rate.comp == 0 && self.start % 2 == 0 {
            return FixedRateCoupon::new(
                d0(self.pay), self.nominal, self.rate.r, dc(self.rate.dc), d0(self.start), d0(self.end),
                (self.ref_a != 0).then(|| d0(self.ref_a)), (self.ref_b != 0).then(|| d0(self.ref_b)),
                (self.ex != 0).then(|| d0(self.ex)),
            );
        }
        FixedRateCoupon::with_interest_rate(
            d0(self.pay), self.nominal, self.rate.lib(), d0(self.start), d0(self.end),
            (self.ref_a != 0).then(|| d0(self.ref_a)), (self.ref_b != 0).then(|| d0(self.ref_b)),
            (self.ex != 0).then(|| d0(self.ex)),
        )
    }
    pub fn interest(&self, a: i32, b: i32) -> f64 {
        let t = self.rate.yf(a, b, self.ref_a, self.ref_b);
        // 30E/360 counts backwards from a termination date at the end of February
        dayref::sane(t >= 0.0);
        self.nominal * (self.rate.growth(t) - 1.0)
    }
    pub fn amount(&self) -> f64 {
        self.interest(self.start, self.end)
    }
    pub fn is_ex(&self, t: i32) -> bool {
        self.ex != 0 && self.ex <= t
    }
    pub fn accrued(&self, t: i32) -> f64 {
        if t <= self.start || t > self.pay {
            0.0
        } else if self.is_ex(t) {
            -self.interest(t, t.max(self.end))
        } else {
            self.interest(self.start, t.min(self.end))
        }
    }
    pub fn accrued_period(&self, t: i32) -> f64 {
        if t <= self.start || t > self.pay {
            0.0
        } else if self.is_ex(t) {
            -self.rate.yf(t, t.max(self.end), self.ref_a, self.ref_b)
        } else {
            self.rate.yf(self.start, t.min(self.end), self.ref_a, self.ref_b)
        }
    }
    pub fn accrued_days(&self, t: i32) -> i32 {
        if t <= self.start || t > self.pay {
            0
        } else {
            dayref::count(self.rate.dc, self.start, t.min(self.end))
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Flow {
    Coupon(Cpn),
    Plain(u8, f64, i32),
}
impl Flow {
    pub fn date(&self) -> i32 {
        match self {
            Flow::Coupon(c) => c.pay,
            Flow::Plain(_, _, d) => *d,
        }
    }
    pub fn amount(&self) -> f64 {
        match self {
            Flow::Coupon(c) => c.amount(),
            Flow::Plain(_, a, _) => *a,
        }
    }
    pub fn is_ex(&self, t: i32) -> bool {
        matches!(self, Flow::Coupon(c) if c.is_ex(t))
    }
    pub fn accrued(&self, t: i32) -> f64 {
        match self {
            Flow::Coupon(c) => c.accrued(t),
            _ => 0.0,
        }
    }
    /// The flow as the library's object, behind `layers` reference counts.
    pub fn lib(&self, layers: u8) -> Rc<dyn CashFlow> {
        let wrap = |x: Rc<dyn CashFlow>| -> Rc<dyn CashFlow> {
            match layers {
                0 => x,
                1 => Rc::new(x),
                _ => Rc::new(Rc::new(x)),
            }
        };
        match self {
            Flow::Coupon(c) => wrap(Rc::new(c.lib())),
            Flow::Plain(0, a, d) => wrap(Rc::new(SimpleCashFlow::new(*a, d0(*d)))),
            Flow::Plain(1, a, d) => wrap(Rc::new(Redemption::new(*a, d0(*d)))),
            Flow::Plain(_, a, d) => wrap(Rc::new(AmortizingPayment::new(*a, d0(*d)))),
        }
    }
    pub fn occurred(&self, t: i32, incl: bool) -> bool {
        self.date() < t || (self.date() == t && !incl)
    }
    /// Discounting time from the previous flow (or the valuation date).
    pub fn step_time(&self, y: &Rate, npv_date: i32, last: i32) -> f64 {
        match self {
            Flow::Plain(_, _, d) => {
                let a = if last == npv_date { add_months(*d, -12) } else { last };
                y.yf(last, *d, a, *d)
            }
            Flow::Coupon(c) if c.start != last => {
                y.yf(c.start, c.pay, c.ref_a, c.ref_b) - y.yf(c.start, last, c.ref_a, c.ref_b)
            }
            Flow::Coupon(c) => y.yf(last, c.pay, c.ref_a, c.ref_b),
        }
    }
}
pub fn ref_npv(flows: &[Flow], y: &Rate, incl: bool, settle: i32, npv_date: i32) -> f64 {
    let (mut npv, mut disc, mut last) = (0.0, 1.0, npv_date);
    for f in flows.iter().filter(|f| !f.occurred(settle, incl)) {
        disc /= y.growth(f.step_time(y, npv_date, last));
        last = f.date();
        if !f.is_ex(settle) {
            npv += f.amount() * disc;
        }
    }
    npv
}
/// -(1/P) dP/dy by the library's published definition, recomputed from the flows.
pub fn ref_duration(flows: &[Flow], y: &Rate, incl: bool, settle: i32, npv_date: i32) -> f64 {
    let (mut p, mut dp, mut t, mut last) = (0.0, 0.0, 0.0, npv_date);
    let n = y.freq as i32 as f64;
    for f in flows.iter().filter(|f| !f.occurred(settle, incl)) {
        t += f.step_time(y, npv_date, last);
        last = f.date();
        let a = if f.is_ex(settle) { 0.0 } else { f.amount() };
        let b = 1.0 / y.growth(t);
        p += a * b;
        let simple = match y.comp {
            0 => true,
            3 => t <= 1.0 / n,
            4 => t > 1.0 / n,
            _ => false,
        };
        dp -= a * if simple { b * b * t } else if y.comp == 2 { b * t } else { t * b / (1.0 + y.r / n) };
    }
    if p == 0.0 { 0.0 } else { -dp / p }
}

pub fn close(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-9 * scale.max(1e-6) || a == b
}

/// A leg of coupons and principal flows in payment order. Returns the flows and the coupons.
pub fn draw_leg<D: Draw>(c: &mut D, first: i32, max: usize) -> Vec<Flow> {
    let n = 1 + c.idx(max);
    let months = c.pick(&[6, 3, 12, 1, 2]);
    let rate = Rate::draw(c, true);
    let lag = c.pick(&[0, 0, 1, 4]);
    let ex = c.pick(&[0, 0, 1, 7, 20]);
    let nominal = c.pick(&[100.0, 1.0, 1_000_000.0, 73.5]);
    let mut out = vec![];
    let mut left = nominal;
    for i in 0..n {
        let (a, b) = (add_months(first, months * i as i32), add_months(first, months * (i as i32 + 1)));
        let (mut a, mut b) = (a, b);
        if i == 0 && c.chance(1, 4) {
            a -= c.range(1, 40) as i32; // long first period
        }
        if i + 1 == n && c.chance(1, 4) {
            b -= c.range(1, 12) as i32; // short last period
        }
        let rate = if c.chance(1, 4) { Rate { r: c.real(0.0, 0.1), ..rate } } else { rate };
        let pay = b + lag;
        let cpn = Cpn { start: a, end: b, ref_a: a, ref_b: b, pay, ex: if ex > 0 { pay - ex } else { 0 }, nominal: left, rate };
        out.push(Flow::Coupon(cpn));
        if i + 1 < n && c.chance(1, 5) {
            let x = left * 0.25;
            left -= x;
            out.push(Flow::Plain(2, x, pay));
        }
        if c.chance(1, 8) {
            out.push(Flow::Plain(0, c.pick(&[1.0, -2.5, 40.0, 0.0]), pay + c.range(0, 20) as i32));
        }
    }
    let last = out.iter().map(|f| f.date()).max().unwrap();
    if c.chance(4, 5) {
        out.push(Flow::Plain(1, left, last));
    }
    out.sort_by_key(|f| f.date());
    out
}
pub fn coupons(flows: &[Flow]) -> Vec<Cpn> {
    flows.iter().filter_map(|f| match f { Flow::Coupon(c) => Some(*c), _ => None }).collect()
}
pub fn lib_leg(flows: &[Flow], layers: u8) -> Vec<Rc<dyn CashFlow>> {
    flows.iter().map(|f| f.lib(layers)).collect()
}
pub fn lib_coupons(cs: &[Cpn], layers: u8) -> Vec<Rc<dyn Coupon>> {
    cs.iter()
        .map(|c| {
            let x: Rc<dyn Coupon> = Rc::new(c.lib());
            if layers == 0 { x } else { Rc::new(x) as Rc<dyn Coupon> }
        })
        .collect()
}
