//! Fixed-rate legs built by the library from drawn terms, and the same coupons built independently.
use crate::cal::*;
use crate::gen::*;
use crate::model::*;
use crate::sch::*;
use rust_quantlib::cashflows::fixedratecoupon::FixedRateCoupon;
use rust_quantlib::cashflows::fixedrateleg::FixedRateLeg;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::timeunit::TimeUnit as U;

#[derive(Clone, Debug)]
pub struct LegSpec {
    pub sp: Spec,
    pub notionals: Vec<f64>,
    pub rates: Vec<Rate>,
    pub first_dc: Option<usize>,
    pub last_dc: Option<usize>,
    pub pay_market: Option<usize>,
    pub pay_adj: Option<B>,
    pub lag: Option<i32>,
    /// length, unit, market, convention, end of month
    pub ex: Option<(i32, U, usize, B, bool)>,
    /// how the builder is told
    pub told: Told,
}

fn set<T>(l: FixedRateLeg, term: Option<T>, f: impl FnOnce(FixedRateLeg, T) -> FixedRateLeg) -> FixedRateLeg {
    match term {
        Some(t) => f(l, t),
        None => l,
    }
}

/// The order in which a leg's builder is given its terms, and what it was told before it was told right.
#[derive(Clone, Debug)]
pub struct Told {
    /// notionals and rates at construction: the right ones, others, none
    at_new: [u8; 2],
    /// (setter, a term superseded later); a setter not listed is called last, with the right term
    calls: Vec<(u8, bool)>,
    single: bool,
}
impl Told {
    fn draw<D: Draw>(c: &mut D) -> Told {
        if c.chance(1, 2) {
            return Told { at_new: [0; 2], calls: vec![], single: false };
        }
        Told {
            at_new: [c.below(3) as u8, c.below(3) as u8],
            calls: (0..c.range(0, 8)).map(|_| (c.below(8) as u8, c.chance(1, 3))).collect(),
            single: c.chance(1, 2),
        }
    }
}
impl LegSpec {
    pub fn draw<D: Draw>(c: &mut D, lo: i32, hi: i32, rules: u8) -> LegSpec {
        let sp = Spec::draw(c, lo, hi, rules);
        let mut base = Rate::draw(c, true);
        if c.chance(1, 12) {
            base.dc = crate::dayref::isda_until(sp.term);
        }
        let nr = c.pick(&[1usize, 1, 1, 1, 2, 2, 3, 9]);
        let nn = c.pick(&[1usize, 1, 1, 1, 2, 2, 4, 12]);
        let mixed = c.chance(1, 3);
        LegSpec {
            sp,
            rates: (0..nr)
                .map(|i| match i {
                    0 => base,
                    _ if mixed => Rate::draw(c, true),
                    _ => Rate { r: c.real(0.0, 0.1), ..base },
                })
                .collect(),
            notionals: (0..nn).map(|i| 100.0 * c.pick(&[1.0, 10_000.0, 0.37, 1e5, 2.5e7]) * 0.9f64.powi(i as i32)).collect(),
            first_dc: c.chance(1, 5).then(|| c.idx(N_DC)),
            last_dc: c.chance(1, 5).then(|| c.idx(N_DC)),
            pay_market: c.chance(1, 3).then(|| c.idx(N_MARKETS)),
            pay_adj: c.chance(1, 2).then(|| c.pick(&CONVS)),
            lag: c.chance(1, 3).then(|| c.range(-1, 5) as i32),
            ex: c.chance(1, 3).then(|| {
                let (n, u) = c.pick(&[(7, U::Days), (1, U::Days), (6, U::Days), (1, U::Weeks), (2, U::Weeks), (1, U::Months), (0, U::Days), (0, U::Months), (4, U::Months), (1, U::Years)]);
                (n, u, c.idx(N_MARKETS), c.pick(&CONVS), c.chance(1, 4))
            }),
            told: Told::draw(c),
        }
    }
    /// One call of the builder. A wrong term is given only where the right one follows.
    fn tell(&self, l: FixedRateLeg, setter: u8, wrong: bool) -> FixedRateLeg {
        let r0 = self.rates[0];
        let other = Rate { r: r0.r + 0.031, dc: (r0.dc + 1) % N_DC, ..r0 };
        let day = |d: usize| dc(if wrong { (d + 1) % N_DC } else { d });
        match setter {
            0 => match (wrong, self.told.single, &self.notionals[..]) {
                (true, true, _) => l.with_notional(77.0),
                (true, false, _) => l.with_notionals(vec![7.0, 8.0, 9.0]),
                (false, true, [n]) => l.with_notional(*n),
                _ => l.with_notionals(self.notionals.clone()),
            },
            1 => {
                let alike = self.rates.iter().all(|r| (r.dc, r.comp, r.freq) == (r0.dc, r0.comp, r0.freq));
                match (wrong, self.told.single, &self.rates[..]) {
                    (true, true, _) => l.with_coupon_rate(other.r, dc(other.dc), comp(other.comp), other.freq),
                    (true, false, _) => l.with_coupon_rates(vec![other.r, r0.r], dc(r0.dc), comp(r0.comp), r0.freq),
                    (false, true, [r]) if self.notionals.len() > 1 => l.with_interest_rate(r.lib()),
                    (false, true, [r]) => l.with_coupon_rate(r.r, dc(r.dc), comp(r.comp), r.freq),
                    (false, true, rs) if alike => l.with_coupon_rates(rs.iter().map(|r| r.r).collect(), dc(r0.dc), comp(r0.comp), r0.freq),
                    _ => l.with_interest_rates(self.rates.iter().map(|r| r.lib()).collect()),
                }
            }
            2 => set(l, self.first_dc, |l, d| l.with_first_period_daycounter(day(d))),
            3 => set(l, self.last_dc, |l, d| l.with_last_period_daycounter(day(d))),
            4 => set(l, self.pay_market, |l, m| l.with_payment_calendar(market(if wrong { (m + 1) % N_MARKETS } else { m }))),
            5 => set(l, self.pay_adj, |l, a| l.with_payment_adjustment(if wrong { B::Preceding } else { a })),
            6 => set(l, self.lag, |l, n| l.with_payment_lag(n + 2 * wrong as i32)),
            _ => set(l, self.ex, |l, (n, u, m, a, e)| l.with_ex_coupon_period(Period::new(n + wrong as i32, u), market(m), a, e != wrong)),
        }
    }
    pub fn lib(&self, eval: i32) -> Vec<FixedRateCoupon> {
        let t = &self.told;
        let wrong = Rate { r: 0.5, ..self.rates[0] };
        let notionals = [self.notionals.clone(), vec![55.5, 44.4], vec![]][t.at_new[0] as usize].clone();
        let rates = match t.at_new[1] {
            0 => self.rates.iter().map(|r| r.lib()).collect(),
            1 => vec![wrong.lib(), wrong.lib()],
            _ => vec![],
        };
        let mut l = FixedRateLeg::new(self.sp.lib(eval), notionals, rates);
        // a setter whose last listed call is right is not called again
        let mut due: [bool; 8] = std::array::from_fn(|k| k >= 2 || t.at_new[k] != 0);
        for &(k, wrong) in &t.calls {
            l = self.tell(l, k, wrong);
            due[k as usize] = wrong;
        }
        for k in 0..8 {
            if due[k as usize] {
                l = self.tell(l, k, false);
            }
        }
        l.build()
    }
    /// The coupons the terms describe, period by period. None where the terms leave no schedule.
    pub fn reference(&self) -> Result<Option<Vec<Cpn>>, Off> {
        let (_, k) = self.sp.calendar();
        let Some((ds, reg)) = self.sp.reference(&k)? else { return Ok(None) };
        if !ds.windows(2).all(|w| w[0] < w[1]) {
            return Ok(None);
        }
        let pay_cal = self.pay_market.map(RefCal::new);
        let pc = pay_cal.as_ref().unwrap_or(&k);
        let adj = self.pay_adj.unwrap_or(B::Following);
        let zero = self.sp.rule == rust_quantlib::datetime::dategenerationrule::DateGenerationRule::Zero;
        let len = if zero { 0 } else { self.sp.len };
        let unit = if zero { U::Years } else { self.sp.unit };
        let ex_cal = self.ex.map(|x| RefCal::new(x.2));
        let n = ds.len() - 1;
        let mut out = vec![];
        for i in 0..n {
            let (a, b) = (ds[i], ds[i + 1]);
            let pay = pc.advance(b, self.lag.unwrap_or(0), U::Days, adj, false)?;
            let (mut ra, mut rb) = (a, b);
            if !reg[i] && i == 0 {
                ra = k.advance(b, -len, unit, self.sp.conv, self.sp.eom_on())?;
            } else if !reg[i] && i + 1 == n {
                rb = k.advance(a, len, unit, self.sp.conv, self.sp.eom_on())?;
            }
            let mut rate = self.rates[i.min(self.rates.len() - 1)];
            if i == 0 {
                rate.dc = self.first_dc.unwrap_or(rate.dc);
            } else if i + 1 == n {
                rate.dc = self.last_dc.unwrap_or(rate.dc);
            }
            let ex = match (self.ex, &ex_cal) {
                (Some((l, u, _, a, e)), Some(k)) => k.advance(pay, -l, u, a, e)?,
                _ => 0,
            };
            out.push(Cpn { start: a, end: b, ref_a: ra, ref_b: rb, pay, ex, nominal: self.notionals[i.min(self.notionals.len() - 1)], rate });
        }
        Ok(Some(out))
    }
}
