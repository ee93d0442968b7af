//! A battery of pure questions to every part of the library. An object is built from one number and
//! asked questions identified by one number each, so the same question can be put to a fresh object
//! in a process of its own and to a long-lived object inside any history or interleaving.
use crate::bonds::*;
use crate::cal::*;
use crate::gen::*;
use crate::leg::*;
use crate::model::*;
use crate::sch::*;
use crate::solv::*;
use rust_quantlib::cashflows::cashflow::{self, CashFlow};
use rust_quantlib::cashflows::fixedrateleg::FixedRateLeg;
use rust_quantlib::currencies::currency::Currency;
use rust_quantlib::currencies::{africa::*, america::*, asia::*, europe::*, oceania::*};
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::dategenerationrule::DateGenerationRule as R;
use rust_quantlib::datetime::imm::IMM;
use rust_quantlib::datetime::months::Month;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::timeunit::TimeUnit as U;
use rust_quantlib::instruments::creditdefaultswap::cds_maturity;
use rust_quantlib::instruments::instrument::Instrument;
use rust_quantlib::instruments::stock::Stock;
use rust_quantlib::maths::array::Array;
use rust_quantlib::maths::interpolations::interpolation::Interpolation;
use rust_quantlib::maths::interpolations::lagrangeinterpolation::LagrangeInterpolation;
use rust_quantlib::maths::interpolations::linearinterpolation::LinearInterpolation;
use rust_quantlib::maths::rounding::Rounding;
use rust_quantlib::pricingengines::bond::bondfunctions;
use rust_quantlib::quotes::simplequote::SimpleQuote;
use simcore::rng::Rng;
use simcore::seams::harness;
use std::sync::Arc;

pub const UNITS: [U; 4] = [U::Days, U::Weeks, U::Months, U::Years];
pub const NAMES: [&str; 16] = [
    "calendar", "schedule", "imm", "cds-maturity", "leg", "fixed-rate-leg", "bond", "solver", "linear-interpolation",
    "lagrange-interpolation", "interest-rate", "day-count", "rounding", "array", "date", "stock",
];
pub const N_KINDS: usize = NAMES.len();

/// An object under question; the answer is canonical text (bit patterns of floats).
pub type Obj = Box<dyn Fn(u64) -> String>;
/// Work the battery's callbacks may do from inside the library (reentrancy); none by default.
pub type Inner<'a> = Option<&'a dyn Fn()>;

fn b(x: f64) -> String {
    format!("{:016x}", x.to_bits())
}
fn dates(v: &[Date]) -> String {
    v.iter().map(|d| d.serial_number().to_string()).collect::<Vec<_>>().join(",")
}
/// A question is answered or refused; both are answers.
fn ask(f: impl FnOnce() -> String) -> String {
    match simcore::seams::catch(f) {
        Ok(s) => s,
        Err(m) => format!("refused: {m}"),
    }
}
pub fn currency(i: usize) -> Box<dyn Currency> {
    match i % 17 {
        0 => Box::new(ZARCurrency::new()),
        1 => Box::new(CADCurrency::new()),
        2 => Box::new(USDCurrency::new()),
        3 => Box::new(CNYCurrency::new()),
        4 => Box::new(HKDCurrency::new()),
        5 => Box::new(JPYCurrency::new()),
        6 => Box::new(KRWCurrency::new()),
        7 => Box::new(SARCurrency::new()),
        8 => Box::new(SGDCurrency::new()),
        9 => Box::new(CNHCurrency::new()),
        10 => Box::new(CHFCurrency::new()),
        11 => Box::new(EURCurrency::new()),
        12 => Box::new(GBPCurrency::new()),
        13 => Box::new(NOKCurrency::new()),
        14 => Box::new(SEKCurrency::new()),
        15 => Box::new(AUDCurrency::new()),
        _ => Box::new(NZDCurrency::new()),
    }
}
pub fn rounding<D: Draw>(c: &mut D) -> Rounding {
    let (p, d) = (c.range(0, 5) as i32, c.range(1, 9) as i32);
    match c.below(6) {
        0 => Rounding::none(),
        1 => Rounding::up(p, d),
        2 => Rounding::down(p, d),
        3 => Rounding::closest(p, d),
        4 => Rounding::ceiling(p, d),
        _ => Rounding::floor(p, d),
    }
}
pub fn knots<D: Draw>(c: &mut D, n: usize) -> (Vec<f64>, Vec<f64>) {
    let mut x = c.real(-5.0, 5.0);
    let xs: Vec<f64> = (0..n)
        .map(|_| {
            x += c.real(0.05, 2.0);
            x
        })
        .collect();
    let ys = (0..n).map(|_| c.real(-10.0, 10.0)).collect();
    (xs, ys)
}
/// A stream of choices that is mostly that of `seed >> 16`: seeds with equal high bits give objects
/// (and questions) that differ in a few terms only - the ones a shared cache would confuse.
pub struct Kin {
    base: Rng,
    var: Option<Rng>,
}
fn kin(seed: u64) -> Kin {
    let v = seed & 0xffff;
    Kin { base: Rng::new(seed >> 16), var: (v != 0).then(|| Rng::new(v << 32 | 77)) }
}
impl Draw for Kin {
    fn below(&mut self, n: u64) -> u64 {
        let x = self.base.below(n);
        if let Some(v) = &mut self.var {
            if v.chance(1, 5) {
                return v.below(n);
            }
        }
        x
    }
}
/// Slices whose memory is given back with the object that reads them.
struct Owned(&'static [f64]);
fn owned(v: Vec<f64>) -> Owned {
    Owned(Box::leak(v.into()))
}
impl Drop for Owned {
    fn drop(&mut self) {
        drop(unsafe { Box::from_raw(self.0 as *const [f64] as *mut [f64]) });
    }
}
fn month(m: i32) -> Month {
    Month::from(m)
}

const LO: i32 = 11_000; // 1930
const HI: i32 = 91_000; // 2149

/// Builds the object with terms derived from `seed`; a refusal to build is remembered.
pub fn make(kind: usize, seed: u64) -> Obj {
    match simcore::seams::catch(|| build(kind, seed)) {
        Ok(o) => o,
        Err(m) => Box::new(move |_| format!("refused: {m}")),
    }
}

/// A call that is refused half-way through.
pub fn mishap(h: u64) {
    let (r, z) = (Rng::new(h), dt(MAX));
    let c = &mut { r };
    let _ = simcore::seams::catch(|| {
        let cal = market(c.idx(N_MARKETS));
        let k = |c: &mut Rng| c.range(-3, 3) as i32;
        match c.below(14) {
            0 => drop(cal.business_day_list(z - 9, z)),
            1 => drop(cal.holiday_list(z - 9, z, c.chance(1, 2))),
            2 => drop(cal.advance_by_days(z - 2, 40, U::Days, CONVS[0], false)),
            3 => drop(cal.adjust(dt(MIN), CONVS[2])),
            4 => drop(Date::new(30, Month::February, 2020 + k(c))),
            5 => drop(z + 400),
            6 => drop(Spec { effective: HI, term: HI - 900, ..Spec::draw(c, LO, HI, 1) }.lib(LO)),
            7 => {
                let (x, y) = (owned(vec![1.0, 2.0]), owned(vec![3.0]));
                drop(LinearInterpolation::new(x.0, y.0).value(1.5))
            }
            8 => drop(Array::new(vec![1.0; 3]).dot_product(&Array::new(vec![1.0; 4]))),
            9 => drop(Period::new(1, U::Months) < Period::new(30 + k(c).abs(), U::Days)),
            10 => drop(IMM::new(ctx_at(HI)).date("X9", &Date::default())),
            11 => drop(cds_maturity(&dt(HI), Period::new(0, U::Months), R::OldCDS)),
            12 => drop(Rate::draw(c, false).lib().implied_rate(-1.0, &dc(0), &comp(2), FREQS[0], 1.0)),
            _ => {
                let sp = Spec::draw(c, LO, HI, 1);
                drop(FixedRateLeg::new(sp.lib(LO), vec![100.0], vec![]).build())
            }
        }
    });
}

fn build(kind: usize, seed: u64) -> Obj {
    let mut r = kin(seed);
    let c = &mut r;
    match kind {
        0 => {
            let mut cal = market(c.idx(N_MARKETS));
            let base = any_date(c, LO, HI);
            let spread = c.pick(&[2i64, 4, 12, 40]);
            for _ in 0..c.below(5) {
                let d = dt(base + c.range(-spread, spread) as i32);
                if c.chance(1, 2) { cal.add_holiday(d) } else { cal.remove_holiday(d) }
            }
            Box::new(move |q| {
                let mut r = kin(q);
                let c = &mut r;
                let s = if c.chance(3, 4) { base + c.range(-spread - 1, spread + 1) as i32 } else { any_date(c, LO, HI) };
                // the same day of another year
                let v = civ(s);
                let y = (v.y + c.pick(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 100, 100, 10, 1, 4, 28])).min(2190);
                let s = ser(y, v.m, v.d.min(28));
                let d = dt(s);
                let conv = c.pick(&CONVS);
                ask(|| match c.below(16) {
                    15 => {
                        use rust_quantlib::datetime::calendar as k;
                        if c.chance(1, 2) { format!("{}", k::easter_monday(y)) } else { format!("{}", k::easter_monday_orthodox(y)) }
                    }
                    10..=14 => {
                        // lands near the edited days
                        let u = c.pick(&[U::Days, U::Weeks, U::Months, U::Months, U::Years]);
                        let n = c.range(-9, 14) as i32;
                        let from = match u {
                            U::Days => s,
                            U::Weeks => s - 7 * n,
                            U::Months => s - (n as f64 * 30.4375) as i32,
                            _ => s - (n as f64 * 365.25) as i32,
                        };
                        format!("{:?}", cal.advance_by_days(dt(from), n, u, conv, c.chance(1, 2)))
                    }
                    8 | 9 => (ser(y, 3, 15)..ser(y, 6, 20)).filter(|&k| wd(k) > 1 && cal.is_holiday(&dt(k))).map(iso).collect::<Vec<_>>().join(","),
                    0 => format!("{}", cal.is_holiday(&d)),
                    1 => format!("{:?}", cal.adjust(d, conv)),
                    2 => format!("{:?}", cal.advance_by_days(d, c.range(-25, 25) as i32, c.pick(&UNITS), conv, c.chance(1, 2))),
                    3 => format!("{:?} {}", cal.end_of_month(&d), cal.is_end_of_month(&d)),
                    4 => format!("{}", cal.business_days_between(d, dt(s + c.range(-60, 60) as i32), c.chance(1, 2), c.chance(1, 2))),
                    5 => format!("{} {}", cal.name(), cal.is_weekend(d.weekday())),
                    6 if c.chance(1, 2) => dates(&cal.business_day_list(d, d + 40)),
                    6 => dates(&cal.holiday_list(d, d + 40, c.chance(1, 2))),
                    _ => (0..12).map(|k| if cal.is_holiday(&(d + k)) { 'H' } else { '.' }).collect(),
                })
            })
        }
        1 => {
            let sp = Spec::draw(c, LO, HI, 1);
            let s = sp.lib(sp.effective);
            Box::new(move |q| {
                let mut r = kin(q);
                let c = &mut r;
                let d = dt((sp.effective + c.range(-30, (sp.term - sp.effective) as i64 + 30) as i32).max(MIN));
                ask(|| match c.below(7) {
                    0 => dates(&s.dates()),
                    1 => (1..s.size()).map(|i| if s.is_regular(i) { 'r' } else { 'i' }).collect(),
                    2 => format!("{:?} {:?}", s.next_date(&d), s.previous_date(&d)),
                    3 => dates(&s.after(&d).dates()),
                    4 => dates(&s.until(&d).dates()),
                    5 => format!("{s:?}"),
                    _ => format!("{:?} {:?} {} {}", s.start_date(), s.end_date(), s.size(), dates(&sp.lib(c.range(LO as i64, HI as i64) as i32).dates())),
                })
            })
        }
        2 => {
            let t = any_date(c, LO, HI);
            let imm = IMM::new(ctx_at(t));
            Box::new(move |q| {
                let mut r = kin(q);
                let c = &mut r;
                let d = if c.chance(1, 4) { Date::default() } else { dt(t + c.range(-400, 400) as i32) };
                let m = c.chance(1, 2);
                let code = format!("{}{}", b"FGHJKMNQUVXZ"[c.idx(12)] as char, c.below(10));
                ask(|| match c.below(5) {
                    0 => format!("{:?}", imm.next_date(&d, m)),
                    1 => imm.next_code(&d, m),
                    2 => format!("{:?}", imm.date(&code, &d)),
                    3 => format!("{} {}", imm.is_imm_code(&code, m), imm.is_imm_date(&d, m)),
                    _ => imm.next_code_from_code(&code, m, &d),
                })
            })
        }
        3 => Box::new(move |q| {
            let mut r = kin(q);
            let c = &mut r;
            let d = dt(any_date(c, LO, HI));
            let rule = c.pick(&[R::CDS2015, R::CDS, R::OldCDS]);
            ask(|| format!("{:?}", cds_maturity(&d, Period::new(c.range(0, 40) as i32 * 3, U::Months), rule)))
        }),
        4 => {
            let first = any_date(c, LO, HI);
            let flows = draw_leg(c, first, 8);
            let leg = lib_leg(&flows, c.below(3) as u8);
            let cpn = lib_coupons(&coupons(&flows), c.below(2) as u8);
            let last = flows.last().unwrap().date();
            Box::new(move |q| {
                let mut r = kin(q);
                let c = &mut r;
                let mut d = d0(c.range(first as i64 - 100, last as i64 + 20) as i32);
                if c.chance(1, 3) {
                    d = d0(flows[c.idx(flows.len())].date());
                }
                let y = Rate::draw(c, false);
                let incl = c.chance(1, 2);
                ask(|| match c.below(9) {
                    6 => leg.iter().map(|f| if f.has_occurred(&d, incl) { 'x' } else { '.' }).collect(),
                    7 => {
                        let f = &leg[c.idx(leg.len())];
                        format!("{} {}", f.has_occurred(&d, incl), f.trading_ex_coupon(d))
                    }
                    8 => format!("{:?}", cashflow::maturity_date(&leg)),
                    0 => b(cashflow::npv(&leg, &y.lib(), incl, d, Date::default())),
                    1 => b(cashflow::modified_duration(&leg, &y.lib(), incl, d, d)),
                    2 => format!("{:?}", cashflow::next_cashflow(&leg, incl, d)),
                    3 => b(cashflow::accrued_amount(&leg, incl, d)),
                    4 => format!("{} {}", cashflow::accrued_days(&cpn, incl, d), b(cashflow::accrued_period(&cpn, incl, d))),
                    _ => leg.iter().map(|f| format!("{:?}={}", f.date(), b(f.amount()))).collect::<Vec<_>>().join(" "),
                })
            })
        }
        5 => {
            let ls = LegSpec::draw(c, LO, HI, 1);
            let e = ls.sp.effective;
            let leg = ls.lib(e);
            Box::new(move |q| {
                let mut r = kin(q);
                let c = &mut r;
                let t = d0(c.range(e as i64 - 20, ls.sp.term as i64 + 20) as i32);
                ask(|| match c.below(3) {
                    0 => leg.iter().map(|f| format!("{:?} {}", f.date(), b(f.amount()))).collect::<Vec<_>>().join(","),
                    1 => leg.iter().map(|f| b(f.accrued_amount(t))).collect::<Vec<_>>().join(","),
                    _ => format!("{}", ls.lib(c.range(LO as i64, HI as i64) as i32).iter().map(|f| format!("{:?} {:?} {:?}", f.date(), f.ex_coupon_date(), f.reference_period_start())).collect::<Vec<_>>().join(",")),
                })
            })
        }
        6 => {
            let bs = BondSpec::draw(c, &[100.0, 1e6]);
            let rf = bs.reference().ok().flatten();
            let Some(rf) = rf else { return Box::new(|_| "no such bond".into()) };
            let (first, last, days) = (rf.first, rf.last(), bs.days);
            let bond = bs.lib(first);
            Box::new(move |q| {
                let mut r = kin(q);
                let c = &mut r;
                let t = d0(c.range(first as i64, last as i64 + 5) as i32);
                let y = Rate::draw(c, false);
                ask(|| match c.below(6) {
                    0 => b(bond.accrued_amount(t)),
                    1 => format!("{} {} {:?} {days}", b(bond.notional(t)), bond.is_tradeable(t), bond.maturity_date()),
                    2 => format!("{:?}", bond.settlement_date(t)),
                    3 => b(bond.clean_price_from_yield(y.r, dc(y.dc), comp(y.comp), y.freq, t)),
                    4 => b(bond.bond_yield(100.0, dc(y.dc), comp(y.comp), y.freq, t)),
                    _ => b(bondfunctions::dirty_price(100.0, bond.cashflows(), &y.lib(), t)),
                })
            })
        }
        7 => {
            let cfg = Cfg { kind: c.idx(3), lo: 0.0, hi: 0.0, lo_on: false, hi_on: false, max: 100 };
            let s = cfg.make();
            Box::new(move |q| {
                let mut r = kin(q);
                let c = &mut r;
                let root = c.real(-20.0, 20.0);
                let (l, h) = (root - c.real(0.1, 6.0), root + c.real(0.1, 6.0));
                let f = Smooth::draw(c, root, h - l);
                let g = c.real(l, h);
                let inner = c.chance(1, 4).then(|| (c.idx(N_KINDS), c.below(1 << 24) << 16, c.below(1 << 24) << 16));
                let n = std::cell::Cell::new(0);
                // a function that itself uses the library
                let f = |x: f64| harness(|| {
                    if let Some((k, a, q)) = inner.filter(|i| i.0 != 7 && n.get() % 16 == 0) {
                        let s = simcore::seams::lib(|| build(k, a)(q));
                        n.set(n.get() + (s.len() as u64) % 2);
                    }
                    n.set(n.get() + 1);
                    f.f(x)
                });
                let d = |_: f64| f(root + 0.5) - f(root - 0.5);
                ask(|| if c.chance(1, 2) { b(s.bracket(&f, &d, 1e-9, g, l, h)) } else { b(s.guess(&f, &d, 1e-9, g, 0.1)) })
            })
        }
        8 => {
            let n = 2 + c.idx(7);
            let (x, y) = knots(c, n);
            let (ox, oy) = (owned(x), owned(y));
            let (x, y) = (ox.0, oy.0);
            let i = LinearInterpolation::new(x, y);
            Box::new(move |q| {
                let mut r = kin(q);
                let _own = (&ox, &oy);
                let z = r.real(x[0] - 0.5, x[n - 1] + 0.5);
                let e = r.chance(1, 2);
                ask(|| format!("{} {} {} {}", b(i.value_with_extrapolation(z, e)), b(i.derivative_with_extrapolation(z, e)), b(i.primitive_with_extrapolation(z, e)), i.is_in_range(z)))
            })
        }
        9 => {
            let n = 2 + c.idx(5);
            let (x, y) = knots(c, n);
            let (ox, oy) = (owned(x), owned(y));
            let (x, y) = (ox.0, oy.0);
            let i = LagrangeInterpolation::new(x, y);
            Box::new(move |q| {
                let mut r = kin(q);
                let _own = (&ox, &oy);
                let z = if r.chance(1, 4) { x[r.idx(n)] } else { r.real(x[0] - 0.5, x[n - 1] + 0.5) };
                let e = r.chance(1, 2);
                ask(|| format!("{} {} {}", b(i.value_with_extrapolation(z, e)), b(i.derivative_with_extrapolation(z, e)), i.locate(z)))
            })
        }
        10 => {
            let y = Rate::draw(c, false);
            let l = y.lib();
            Box::new(move |q| {
                let mut r = kin(q);
                let c = &mut r;
                let t = c.real(0.0, 12.0);
                let s = any_date(c, LO, HI);
                let (d1, d2) = (dt(s), dt(s + c.range(-10, 2000) as i32));
                let o = Rate::draw(c, false);
                ask(|| match c.below(5) {
                    0 => b(l.compound_factor(t)),
                    1 => b(l.discount_factor(t)),
                    2 => b(l.compound_factor_between_dates(&d1, &d2, &d1, &d2)),
                    3 => b(l.equivalent_rate(&comp(o.comp), o.freq, t).rate),
                    _ => b(l.equivalent_rate_between_dates(&dc(o.dc), &comp(o.comp), o.freq, &d1, &d2, &d1, &d2).rate),
                })
            })
        }
        11 => {
            let k = c.idx(N_DC);
            let d = dc(k);
            Box::new(move |q| {
                let mut r = kin(q);
                let c = &mut r;
                let s = any_date(c, LO, HI);
                let (a, z) = (dt(s), dt(s + c.range(0, 1500) as i32));
                let (ra, rz) = if c.chance(1, 2) { (a, z) } else { (dt(s - 10), dt(s + 170)) };
                ask(|| format!("{} {} {}", d.day_count(&a, &z), b(d.year_fraction(&a, &z, &ra, &rz)), d.name()))
            })
        }
        12 => {
            let ro = rounding(c);
            let k = c.idx(17);
            Box::new(move |q| {
                let mut r = kin(q);
                let v = r.real(-1e4, 1e4);
                ask(|| {
                    let cur = currency(k);
                    format!("{} {} {} {} {}", b(ro.round(v)), cur.name(), cur.code(), cur.numeric_code(), b(cur.rounding().round(v)))
                })
            })
        }
        13 => {
            let n = 1 + c.idx(5);
            let xs: Vec<f64> = (0..n).map(|_| c.real(-3.0, 9.0)).collect();
            Box::new(move |q| {
                let mut r = kin(q);
                let c = &mut r;
                let a = Array::new(xs.clone());
                let z = Array::new((0..if c.chance(1, 8) { n + 1 } else { n }).map(|_| c.real(-2.0, 2.0)).collect());
                let k = c.real(-2.0, 2.0);
                ask(|| {
                    let v = match c.below(9) {
                        0 => a + z,
                        1 => a - z,
                        2 => a * z,
                        3 => a / z,
                        4 => a.exp() + k,
                        5 => a.abs().pow(k),
                        6 => return b(a.dot_product(&z)),
                        7 => return b(a.norm2()),
                        _ => a.sqrt() * k,
                    };
                    v.data.iter().map(|x| b(*x)).collect::<Vec<_>>().join(" ")
                })
            })
        }
        14 => {
            let s = any_date(c, LO, HI);
            let v = civ(s);
            let s = ser((v.y + c.pick(&[0, 0, 0, 100, 10, 1, 4])).min(2190), v.m, v.d.min(28)) + (v.d - 28).max(0);
            let d = dt(s);
            Box::new(move |q| {
                let mut r = kin(q);
                let c = &mut r;
                let (n, u) = (c.range(-60, 60) as i32, c.pick(&UNITS));
                ask(|| match c.below(7) {
                    0 => format!("{:?}", d + Period::new(n, u)),
                    1 => format!("{:?}", d - Period::new(n, u)),
                    2 => {
                        let mut x = d;
                        x += n;
                        x -= Period::new(n / 2, u);
                        format!("{x:?} {}", x.serial_number())
                    }
                    3 => format!("{d:?} {:?} {} {:?} {}", d.weekday(), d.day_of_year(), d.month(), d.is_end_of_month()),
                    4 => {
                        let v = civ(s);
                        format!("{:?}", Date::nth_weekday(c.idx(7), d.weekday(), month(v.m), v.y))
                    }
                    5 => {
                        let mut p = Period::new(n, u);
                        p += Period::new(c.range(-9, 9) as i32, c.pick(&UNITS));
                        format!("{p:?} {:?} {:?}", p.normalised(), p.frequency())
                    }
                    _ => format!("{:?} {:?}", Period::new(n, u).partial_cmp(&Period::new(c.range(-60, 60) as i32, c.pick(&UNITS))), Period::new(n, u)),
                })
            })
        }
        _ => {
            let v = c.real(-10.0, 500.0);
            let s = Stock::new(Arc::new(SimpleQuote::new(v)));
            Box::new(move |_| ask(|| format!("{} {}", b(s.npv()), b(s.calculate().error_estimate))))
        }
    }
}
