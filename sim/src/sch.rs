//! Schedules: drawn parameters, the library's object, and an independent generator over plain day
//! numbers and the reference calendar.
use crate::cal::*;
use crate::gen::d0;
use crate::model::*;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::dategenerationrule::DateGenerationRule as R;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::schedule::Schedule;
use rust_quantlib::datetime::schedulebuilder::ScheduleBuilder;
use rust_quantlib::datetime::timeunit::TimeUnit as U;

pub fn ctx_at(t: i32) -> PricingContext {
    PricingContext::new(d0(t))
}

#[derive(Clone, Copy, Debug)]
pub struct Spec {
    pub market: usize,
    pub edits: [(i32, bool); 3],
    pub n_edits: usize,
    /// a closure: this many consecutive holidays from a day on
    pub closed: (i32, i32),
    pub effective: i32, // 0 = none given
    pub term: i32,
    pub len: i32,
    pub unit: U,
    pub conv: B,
    pub tconv: B,
    pub rule: R,
    pub eom: bool,
    pub first: i32,
    pub ntl: i32,
    /// how the builder is told: order, terms superseded later, terms left to their defaults
    pub told: u64,
}
pub type Sch = (Vec<i32>, Vec<bool>);

pub fn shift(s: i32, n: i32, u: U, e: bool) -> i32 {
    match u {
        U::Days => s + n,
        U::Weeks => s + 7 * n,
        _ => {
            let t = add_months(s, if u == U::Years { 12 * n } else { n });
            if e && is_eom(s) { eom(t) } else { t }
        }
    }
}
fn quarterly(r: R) -> bool {
    matches!(r, R::TwentiethIMM | R::OldCDS | R::CDS | R::CDS2015)
}
/// The 20th on or before / on or after a day (of the quarter-end months where the rule says so).
pub fn prev20(s: i32, r: R) -> i32 {
    let mut m = s;
    loop {
        let c = civ(m);
        if c.d == 20 && (!quarterly(r) || c.m % 3 == 0) {
            return m;
        }
        m -= 1;
    }
}
pub fn next20(s: i32, r: R) -> i32 {
    let mut m = s;
    loop {
        let c = civ(m);
        if c.d == 20 && (!quarterly(r) || c.m % 3 == 0) {
            return m;
        }
        m += 1;
    }
}
pub fn third_wed(s: i32) -> i32 {
    let c = civ(s);
    (ser(c.y, c.m, 15)..=ser(c.y, c.m, 21)).find(|&d| wd(d) == 4).unwrap()
}

impl Spec {
    /// `rules`: 0 = backward/forward only, 1 = every rule.
    pub fn draw<D: Draw>(c: &mut D, lo: i32, hi: i32, rules: u8) -> Spec {
        let market = c.idx(N_MARKETS);
        let effective = any_date(c, lo, hi - 2000);
        let rule = if rules == 0 || c.chance(1, 2) {
            c.pick(&[R::Backward, R::Forward])
        } else {
            c.pick(&[R::Zero, R::Twentieth, R::TwentiethIMM, R::ThirdWednesday, R::ThirdWednesdayInclusive, R::OldCDS, R::CDS, R::CDS2015])
        };
        let (len, unit) = match c.below(8) {
            0 | 1 => (6, U::Months),
            2 => (3, U::Months),
            3 => (1, U::Years),
            4 => (c.range(1, 7) as i32, U::Months),
            5 => (c.range(1, 9) as i32, U::Weeks),
            6 => (c.range(1, 60) as i32, U::Days),
            _ => (1, U::Months),
        };
        let step = match unit { U::Days => len, U::Weeks => 7 * len, U::Months => 30 * len, _ => 366 * len };
        let span = match c.below(6) {
            0 => c.range(1, step as i64 + 3) as i32,
            1 | 2 => 0,
            _ => c.range(1, 12 * step as i64 + 40) as i32,
        };
        // now and then a long one
        let span = if span > 1 && c.chance(1, 16) { span.saturating_mul(if c.chance(1, 6) { c.range(10, 40) } else { c.range(2, 9) } as i32) } else { span };
        // (the library counts days one by one, from the far end each time: what it costs is span * span / len)
        let span = if unit == U::Days { span.min((800.0 * (len as f64).sqrt()) as i32) } else { span };
        let e = c.chance(1, 3);
        // the whole number of tenors, or any distance
        let term = if span == 0 { shift(effective, len * (1 + c.idx(10) as i32), unit, e) } else { effective + span };
        let term = term.min(hi - 100).max(effective + 1);
        let plain = matches!(rule, R::Backward | R::Forward);
        let (mut first, mut ntl) = (0, 0);
        if plain && c.chance(1, 4) && term - effective > 3 {
            first = c.range(effective as i64 + 1, term as i64) as i32;
        }
        if plain && c.chance(1, 4) && term - effective > 3 {
            ntl = c.range(effective as i64, term as i64 - 1) as i32;
        }
        if first != 0 && ntl != 0 && first >= ntl {
            ntl = 0;
        }
        if rule == R::ThirdWednesday {
            // stub dates are third Wednesdays themselves
            let near = |s: i32| [s, add_months(s, 1)].map(third_wed).into_iter().find(|&d| d > s && d < term);
            if c.chance(1, 4) {
                first = near(c.range(effective as i64, term as i64 - 1) as i32).unwrap_or(0);
            }
            if c.chance(1, 4) {
                ntl = near(c.range(first.max(effective) as i64, term as i64 - 1) as i32).unwrap_or(0);
            }
        }
        let conv = c.pick(&CONVS);
        let mut edits = [(0, false); 3];
        let n_edits = if c.chance(1, 4) { 1 + c.idx(3) } else { 0 };
        for x in edits.iter_mut().take(n_edits) {
            *x = (c.range(effective as i64, term as i64) as i32, c.chance(2, 3));
        }
        let mut closed = (0, 0);
        if c.chance(1, 6) {
            closed = (c.range(effective as i64 - 10, term as i64) as i32, c.pick(&[6, 9, 11, 16, 35]));
        }
        Spec {
            market, edits, n_edits, closed, effective, term, len, unit, conv,
            tconv: if c.chance(1, 2) { conv } else { c.pick(&CONVS) },
            rule,
            eom: e && (plain || rule == R::Zero),
            first, ntl,
            told: if c.chance(1, 2) { 0 } else { c.below(1 << 24) },
        }
    }
    pub fn calendar(&self) -> (rust_quantlib::datetime::calendar::Calendar, RefCal) {
        let (mut l, mut r) = (market(self.market), RefCal::new(self.market));
        for s in self.closed.0..self.closed.0 + self.closed.1 {
            l.add_holiday(dt(s));
            r.edits.insert(s, true);
        }
        for &(s, h) in &self.edits[..self.n_edits] {
            if h { l.add_holiday(dt(s)) } else { l.remove_holiday(dt(s)) }
            r.edits.insert(s, h);
        }
        (l, r)
    }
    pub fn tenor(&self) -> Period {
        Period::new(self.len, self.unit)
    }
    fn tell(&self, b: ScheduleBuilder, setter: u64, rule: R, wrong: bool) -> ScheduleBuilder {
        let other = |x: B| if x == B::Preceding { B::Following } else { B::Preceding };
        let or = |x: B| if wrong { other(x) } else { x };
        match (setter, rule, wrong) {
            (0, ..) => b.with_convention(or(self.conv)),
            (1, ..) => b.with_termination_convention(or(self.tconv)),
            (2, R::Forward, false) if self.told & 16 != 0 => b.forwards(),
            (2, R::Backward, false) if self.told & 16 != 0 => b.backwards(),
            (2, _, false) => b.with_rule(rule),
            (2, R::Forward, true) => b.backwards(),
            (2, _, true) => b.forwards(),
            (3, ..) => b.with_end_of_month(self.eom != wrong),
            (4, ..) => b.with_first_date(d0(if wrong { self.term + 5 } else { self.first })),
            _ => b.with_next_to_last_date(d0(if wrong { self.term + 9 } else { self.ntl })),
        }
    }
    pub fn lib(&self, eval: i32) -> Schedule {
        let (cal, t) = (self.calendar().0, self.told);
        // a tenor of no length makes one period, whatever the rule
        let no_tenor = self.rule == R::Zero && !self.eom && t & 3 == 3;
        let rules = [R::Backward, R::Forward, R::Zero, R::Twentieth, R::TwentiethIMM, R::ThirdWednesday, R::OldCDS, R::CDS2015];
        let (tenor, rule) = match no_tenor {
            true => (Period::new(0, self.unit), rules[(t >> 20) as usize % 8]),
            false => (self.tenor(), self.rule),
        };
        let mut order: Vec<u64> = (0..6).collect();
        order.sort_by_key(|&i| if t == 0 { i } else { simcore::rng::mix(t >> 8 ^ i << 32) });
        let mut b = ScheduleBuilder::new(ctx_at(eval), d0(self.effective), dt(self.term), tenor, cal);
        let superseded = t & 4 != 0;
        if superseded {
            for &i in order.iter().rev().take(4) {
                b = self.tell(b, i, rule, true);
            }
        }
        let default = [self.conv == B::Following, self.tconv == self.conv, rule == R::Backward, !self.eom, self.first == 0, self.ntl == 0];
        for i in order {
            if superseded || t & 8 == 0 || !default[i as usize] {
                b = self.tell(b, i, rule, false);
            }
        }
        b.build()
    }
    /// End-of-month rolling applies to monthly and longer tenors only.
    pub fn eom_on(&self) -> bool {
        self.eom && self.len > 0 && matches!(self.unit, U::Months | U::Years)
    }
    /// The dates and regularity flags the rules give; None where no two dates are left.
    pub fn reference(&self, k: &RefCal) -> Result<Option<Sch>, Off> {
        let e = self.eom_on();
        let adj = |s: i32| k.adjust(s, self.conv);
        let adjt = |s: i32| k.adjust(s, self.tconv);
        let first = if self.first == self.effective { 0 } else { self.first };
        let ntl = if self.ntl == self.term { 0 } else { self.ntl };
        let eff = self.effective;
        let at = |seed: i32, n: i32| shift(seed, n * self.len, self.unit, e);
        let (mut ds, mut reg): Sch = (vec![], vec![]);
        let mut seed = 0;
        match self.rule {
            R::Zero => {
                ds = vec![eff, self.term];
                reg = vec![true];
            }
            R::Backward => {
                // collected from the back
                ds.push(self.term);
                seed = self.term;
                if ntl != 0 {
                    ds.push(ntl);
                    reg.push(at(seed, -1) == ntl);
                    seed = ntl;
                }
                let stop = if first != 0 { first } else { eff };
                let mut n = 1;
                while at(seed, -n) >= stop {
                    let t = at(seed, -n);
                    if adj(*ds.last().unwrap())? != adj(t)? {
                        ds.push(t);
                        reg.push(true);
                    }
                    n += 1;
                }
                if first != 0 && adj(*ds.last().unwrap())? != adj(first)? {
                    ds.push(first);
                    reg.push(false);
                }
                if adj(*ds.last().unwrap())? != adj(eff)? {
                    ds.push(eff);
                    reg.push(false);
                }
                ds.reverse();
                reg.reverse();
            }
            r => {
                let cds = matches!(r, R::CDS | R::CDS2015);
                if cds {
                    let p = prev20(eff, r);
                    if adj(p)? > eff {
                        ds.push(add_months(p, -3));
                        reg.push(true);
                    }
                    ds.push(p);
                } else {
                    ds.push(eff);
                }
                seed = *ds.last().unwrap();
                let twentieth = matches!(r, R::Twentieth | R::TwentiethIMM | R::OldCDS) || cds;
                if first != 0 {
                    reg.push(at(seed, 1) == first);
                    ds.push(first);
                    seed = first;
                } else if twentieth {
                    let mut n = next20(eff, r);
                    if r == R::OldCDS && n - eff < 30 {
                        n = next20(n + 1, r);
                    }
                    if n != eff {
                        ds.push(n);
                        reg.push(cds);
                        seed = n;
                    }
                }
                let stop = if ntl != 0 { ntl } else { self.term };
                let mut n = 1;
                while at(seed, n) <= stop {
                    let t = at(seed, n);
                    if adj(*ds.last().unwrap())? != adj(t)? {
                        ds.push(t);
                        reg.push(true);
                    }
                    n += 1;
                }
                if ntl != 0 && adj(*ds.last().unwrap())? != adj(ntl)? {
                    ds.push(ntl);
                    reg.push(false);
                }
                if adjt(*ds.last().unwrap())? != adjt(self.term)? {
                    ds.push(if twentieth { next20(self.term, r) } else { self.term });
                    reg.push(twentieth);
                }
            }
        }
        let n = ds.len();
        if n < 2 {
            return Ok(None);
        }
        if self.rule == R::ThirdWednesday {
            for d in &mut ds[1..n - 1] {
                *d = third_wed(*d);
            }
        } else if self.rule == R::ThirdWednesdayInclusive {
            for d in &mut ds {
                *d = third_wed(*d);
            }
        }
        let un = B::Unadjusted;
        if e && seed != 0 && k.is_eom(seed)? {
            for d in &mut ds[1..n - 1] {
                *d = if self.conv == un { eom(*d) } else { k.eom(*d)? };
            }
            let (mut a, mut b) = (ds[0], ds[n - 1]);
            if self.tconv != un {
                a = k.eom(a)?;
                b = k.eom(b)?;
            } else if self.rule == R::Backward {
                b = eom(b);
            } else {
                a = eom(a);
            }
            if a != b {
                ds[0] = a;
                ds[n - 1] = b;
            }
        } else {
            for i in 0..n {
                if i == 0 && self.rule == R::OldCDS {
                    continue;
                }
                if i + 1 < n {
                    ds[i] = adj(ds[i])?;
                } else if !matches!(self.rule, R::CDS | R::CDS2015) {
                    ds[i] = adjt(ds[i])?;
                }
            }
        }
        // adjusted dates may meet at either end
        let mut n = n;
        while n >= 2 && ds[n - 2] >= ds[n - 1] {
            if n >= 3 {
                reg[n - 3] = ds[n - 2] == ds[n - 1];
            }
            ds.remove(n - 2);
            reg.pop();
            n -= 1;
        }
        let n = ds.len();
        if n >= 2 && ds[1] <= ds[0] {
            if n < 3 {
                return Ok(None);
            }
            reg[1] = ds[1] == ds[0];
            ds.remove(1);
            reg.remove(0);
        }
        Ok(if ds.len() > 1 { Some((ds, reg)) } else { None })
    }
}
