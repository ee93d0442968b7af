//! Bonds: the library's objects from drawn terms, a stepped-notional bond implemented on the public
//! trait, and their flows built independently.
use crate::cal::*;
use crate::gen::*;
use crate::leg::*;
use crate::model::*;
use rust_quantlib::cashflows::cashflow::CashFlowLeg;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::calendar::Calendar;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::frequency::Frequency;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::timeunit::TimeUnit as U;
use rust_quantlib::instruments::bond::Bond;
use rust_quantlib::instruments::fixedratebond::FixedRateBond;
use rust_quantlib::instruments::zerocouponbond::ZeroCouponBond;

#[derive(Clone, Debug)]
pub enum Kind {
    Fixed(LegSpec, Option<f64>),
    Zero { market: usize, maturity: i32, conv: Option<B>, redemption: Option<f64> },
    /// notionals after each date, on a hand-written implementation of the bond trait
    Stepped(Vec<Flow>, Vec<i32>, Vec<f64>, usize),
}
#[derive(Clone, Debug)]
pub struct BondSpec {
    pub kind: Kind,
    pub face: f64,
    pub days: i32,
    pub issue: i32,
}
/// What the terms say: flows in payment order, dates on which the notional changes, calendar.
pub struct RefBond {
    pub flows: Vec<Flow>,
    pub steps: Vec<(i32, f64)>, // notional from this date on
    pub maturity: i32,
    pub cal: RefCal,
    pub first: i32,
}
impl RefBond {
    pub fn notional(&self, face: f64, t: i32) -> f64 {
        self.steps.iter().filter(|s| s.0 <= t).last().map_or(face, |s| s.1)
    }
    pub fn last(&self) -> i32 {
        self.steps.last().unwrap().0
    }
    pub fn accrued_100(&self, face: f64, t: i32) -> f64 {
        let n = self.notional(face, t);
        if n == 0.0 {
            return 0.0;
        }
        match self.flows.iter().find(|f| f.date() > t) {
            Some(f) => 100.0 / n * self.flows.iter().filter(|g| g.date() == f.date()).map(|g| g.accrued(t)).sum::<f64>(),
            None => 0.0,
        }
    }
}
pub struct Stepped {
    cal: Calendar,
    flows: CashFlowLeg,
    issue: Date,
    maturity: Date,
    dates: Vec<Date>,
    notionals: Vec<f64>,
    days: i32,
}
impl Bond for Stepped {
    fn calendar(&self) -> &Calendar {
        &self.cal
    }
    fn cashflows(&self) -> &CashFlowLeg {
        &self.flows
    }
    fn issue_date(&self) -> Date {
        self.issue
    }
    fn maturity_date(&self) -> Date {
        self.maturity
    }
    fn notional_schedule(&self) -> &Vec<Date> {
        &self.dates
    }
    fn notionals(&self) -> &Vec<f64> {
        &self.notionals
    }
    fn settlement_days(&self) -> i32 {
        self.days
    }
}

impl BondSpec {
    pub fn draw<D: Draw>(c: &mut D, faces: &[f64]) -> BondSpec {
        let face = c.pick(faces);
        let (lo, hi) = (ser(1930, 1, 1), ser(2150, 1, 1));
        let (kind, start) = match c.below(6) {
            0 => {
                let maturity = any_date(c, lo, hi);
                let k = Kind::Zero {
                    market: c.idx(N_MARKETS), maturity,
                    conv: c.chance(1, 2).then(|| c.pick(&CONVS)),
                    redemption: c.chance(1, 3).then(|| c.pick(&[100.0, 102.5, 98.0, 98.0, 0.5, 1.0, 250.0])),
                };
                (k, maturity - c.range(20, 1500) as i32)
            }
            1 => {
                // level coupons on a notional that steps down
                let a = any_date(c, lo, hi);
                let n = if c.chance(1, 8) { (7 + c.tail(50)).min(80) } else { 2 + c.idx(5) };
                let rate = Rate { r: c.real(0.0, 0.1), dc: c.idx(N_ADDITIVE), comp: 0, freq: Frequency::Annual };
                let (mut flows, mut dates, mut left, mut ns) = (vec![], vec![], face, vec![face]);
                for i in 0..n {
                    let (s, e) = (add_months(a, 6 * i as i32), add_months(a, 6 * i as i32 + 6));
                    flows.push(Flow::Coupon(Cpn { start: s, end: e, ref_a: s, ref_b: e, pay: e, ex: 0, nominal: left, rate }));
                    let out = if i + 1 == n { left } else if c.chance(1, 2) || n > 6 && c.chance(1, 2) { face / n as f64 } else if c.chance(1, 5) { left * c.pick(&[0.5, 0.99, 0.9999]) } else { 0.0 };
                    let out = if i + 1 < n && out >= left { 0.0 } else { out };
                    if out > 0.0 {
                        left = if i + 1 == n { 0.0 } else { left - out };
                        flows.push(Flow::Plain(if i + 1 == n { 1 } else { 2 }, out, e));
                        dates.push(e);
                        ns.push(left);
                    }
                }
                (Kind::Stepped(flows, dates, ns, c.idx(N_MARKETS)), a)
            }
            _ => {
                let mut l = LegSpec::draw(c, lo, hi, 0);
                l.notionals = vec![face];
                let dc0 = l.rates[0].dc;
                for r in &mut l.rates {
                    r.dc = dc0;
                    r.comp = 0;
                    r.freq = Frequency::Annual;
                    r.r = r.r.abs();
                }
                l.last_dc = None;
                l.lag = None;
                let e = l.sp.effective;
                (Kind::Fixed(l, c.chance(1, 3).then(|| c.pick(&[100.0, 101.0, 90.0, 90.0, 0.5, 1.0, 0.0, 250.0]))), e)
            }
        };
        let issue = match c.below(3) {
            0 => 0,
            1 => start,
            _ => start + c.range(-10, 40) as i32,
        };
        BondSpec { kind, face, days: c.range(0, 4) as i32, issue }
    }
    pub fn lib(&self, eval: i32) -> Box<dyn Bond> {
        match &self.kind {
            Kind::Fixed(l, red) => {
                let issue = (self.issue != 0).then(|| d0(self.issue));
                let rates = l.rates.iter().map(|r| r.r).collect();
                let ex = l.ex;
                Box::new(FixedRateBond::new_with_options(
                    self.days, self.face, l.sp.lib(eval), rates, dc(l.rates[0].dc), l.pay_adj, *red, issue,
                    l.pay_market.map(market),
                    ex.map(|x| Period::new(x.0, x.1)), ex.map(|x| market(x.2)), ex.map(|x| x.3), ex.map(|x| x.4),
                    l.first_dc.map(dc),
                ))
            }
            Kind::Zero { market: m, maturity, conv, redemption } => Box::new(ZeroCouponBond::new_with_options(
                self.days, &market(*m), self.face, dt(*maturity), *conv, *redemption, (self.issue != 0).then(|| d0(self.issue)),
            )),
            Kind::Stepped(flows, dates, ns, m) => Box::new(Stepped {
                cal: market(*m),
                flows: lib_leg(flows, 0),
                issue: d0(self.issue),
                maturity: d0(*dates.last().unwrap()),
                dates: std::iter::once(Date::default()).chain(dates.iter().map(|&d| d0(d))).collect(),
                notionals: ns.clone(),
                days: self.days,
            }),
        }
    }
    pub fn reference(&self) -> Result<Option<RefBond>, Off> {
        Ok(Some(match &self.kind {
            Kind::Fixed(l, red) => {
                let Some(cs) = l.reference()? else { return Ok(None) };
                let pay = cs.last().unwrap().pay;
                // a coupon paid before its own period starts is no bond anybody holds
                if cs.iter().any(|x| x.pay <= x.start) || cs.windows(2).any(|w| w[0].pay > w[1].pay) {
                    return Ok(None);
                }
                let maturity = cs.iter().map(|x| x.end).max().unwrap();
                let first = cs[0].start;
                let mut flows: Vec<Flow> = cs.into_iter().map(Flow::Coupon).collect();
                flows.push(Flow::Plain(1, red.unwrap_or(100.0) / 100.0 * self.face, pay));
                let cal = match l.pay_market {
                    Some(m) => RefCal::new(m),
                    None => l.sp.calendar().1,
                };
                RefBond { flows, steps: vec![(pay, 0.0)], maturity, cal, first }
            }
            Kind::Zero { market: m, maturity, conv, redemption } => {
                let cal = RefCal::new(*m);
                let pay = cal.adjust(*maturity, conv.unwrap_or(B::Following))?;
                let f = Flow::Plain(1, self.face * redemption.unwrap_or(100.0) / 100.0, pay);
                RefBond { flows: vec![f], steps: vec![(pay, 0.0)], maturity: *maturity, cal, first: *maturity - 1500 }
            }
            Kind::Stepped(flows, dates, ns, m) => RefBond {
                flows: flows.clone(),
                steps: dates.iter().copied().zip(ns[1..].iter().copied()).collect(),
                maturity: *dates.last().unwrap(),
                cal: RefCal::new(*m),
                first: match flows[0] { Flow::Coupon(c) => c.start, _ => 0 },
            },
        }))
    }
    pub fn settlement(&self, k: &RefCal, t: i32) -> Result<i32, Off> {
        Ok(k.advance(t, self.days, U::Days, B::Following, false)?.max(self.issue))
    }
    pub fn describe(&self, r: &RefBond) -> String {
        let n = match &self.kind {
            Kind::Fixed(l, _) => format!("fixed-rate {:?} {:?} dc {} ex {:?}", l.sp.rule, l.sp.tenor(), l.rates[0].dc, l.ex),
            Kind::Zero { .. } => "zero-coupon".into(),
            Kind::Stepped(..) => "stepped".into(),
        };
        format!("{n} bond, face {}, {} flows, last paid {}, T+{}, issue {}", self.face, r.flows.len(), iso(r.last()), self.days, if self.issue == 0 { "none".into() } else { iso(self.issue) })
    }
}
