//! Reference calendar: a base rule (a pristine instance of the same market) plus the latest edit per
//! date; every derived query is recomputed here, day by day, from that single view.
use crate::model::*;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::calendar::Calendar;
use rust_quantlib::datetime::holidays::*;
use rust_quantlib::datetime::timeunit::TimeUnit;
use std::collections::BTreeMap;

pub const N_MARKETS: usize = 18;
thread_local! {
    /// calendars kept by the desk of a run, edited as it goes; known as markets from `DESK` on
    static DESKS: std::cell::RefCell<Vec<(Calendar, RefCal)>> = const { std::cell::RefCell::new(vec![]) };
}
pub const DESK: usize = 100;
pub fn set_desk(k: usize, lib: Calendar, reference: RefCal) {
    DESKS.with(|d| {
        let mut d = d.borrow_mut();
        if k < d.len() { d[k] = (lib, reference) } else { d.push((lib, reference)) }
    })
}
pub fn desk(k: usize) -> (Calendar, RefCal) {
    DESKS.with(|d| d.borrow()[k].clone())
}
pub fn market(i: usize) -> Calendar {
    if i >= DESK {
        return desk(i - DESK).0;
    }
    match i {
        0 => nilholiday::NilHoliday::new(),
        1 => weekendsonly::WeekendsOnly::new(),
        2 => target::Target::new(),
        3 => unitedkingdom::UnitedKingdom::new(),
        4 => unitedkingdom::UnitedKingdom::exchange(),
        5 => unitedkingdom::UnitedKingdom::metals(),
        6 => unitedstates::UnitedStates::settlement(),
        7 => unitedstates::UnitedStates::libor_impact(),
        8 => unitedstates::UnitedStates::nyse(),
        9 => unitedstates::UnitedStates::government_bond(),
        10 => unitedstates::UnitedStates::nerc(),
        11 => unitedstates::UnitedStates::federal_reserve(),
        12 => brazil::Brazil::new(),
        13 => brazil::Brazil::exchange(),
        14 => italy::Italy::new(),
        15 => italy::Italy::exchange(),
        16 => japan::Japan::new(),
        _ => switzerland::Switzerland::new(),
    }
}
pub const CONVS: [B; 7] = [
    B::Following,
    B::ModifiedFollowing,
    B::Preceding,
    B::ModifiedPreceding,
    B::Unadjusted,
    B::HalfMonthModifiedFollowing,
    B::Nearest,
];

/// Out of the supported date range: the model gives no answer and the query is not made.
pub struct Off;

pub struct RefCal {
    pub base: Calendar,
    cache: std::cell::RefCell<BTreeMap<i32, bool>>,
    /// latest edit per date since the last reset: true = made a holiday, false = made a business day
    pub edits: BTreeMap<i32, bool>,
}
impl Clone for RefCal {
    fn clone(&self) -> Self {
        RefCal { base: self.base.clone(), cache: Default::default(), edits: self.edits.clone() }
    }
}
impl RefCal {
    pub fn new(m: usize) -> Self {
        if m >= DESK {
            return desk(m - DESK).1;
        }
        RefCal { base: market(m), cache: Default::default(), edits: BTreeMap::new() }
    }
    pub fn base_biz(&self, s: i32) -> bool {
        *self.cache.borrow_mut().entry(s).or_insert_with(|| !self.base.is_holiday(&dt(s)))
    }
    pub fn biz(&self, s: i32) -> bool {
        match self.edits.get(&s) {
            Some(h) => !h,
            None => self.base_biz(s),
        }
    }
    pub fn b(&self, s: i32) -> Result<bool, Off> {
        if (MIN..=MAX).contains(&s) {
            Ok(self.biz(s))
        } else {
            Err(Off)
        }
    }
    pub fn next(&self, mut s: i32) -> Result<i32, Off> {
        while !self.b(s)? {
            s += 1;
        }
        Ok(s)
    }
    pub fn prev(&self, mut s: i32) -> Result<i32, Off> {
        while !self.b(s)? {
            s -= 1;
        }
        Ok(s)
    }
    pub fn adjust(&self, s: i32, c: B) -> Result<i32, Off> {
        let same = |a: i32, b: i32| (civ(a).y, civ(a).m) == (civ(b).y, civ(b).m);
        Ok(match c {
            B::Unadjusted => s,
            B::Following => self.next(s)?,
            B::Preceding => self.prev(s)?,
            B::ModifiedFollowing => {
                let n = self.next(s)?;
                if same(n, s) { n } else { self.prev(s)? }
            }
            B::ModifiedPreceding => {
                let p = self.prev(s)?;
                if same(p, s) { p } else { self.next(s)? }
            }
            B::HalfMonthModifiedFollowing => {
                let n = self.next(s)?;
                if !same(n, s) || (civ(s).d <= 15 && civ(n).d > 15) { self.prev(s)? } else { n }
            }
            B::Nearest => {
                let mut k = 0;
                loop {
                    if self.b(s + k)? {
                        return Ok(s + k);
                    }
                    if self.b(s - k)? {
                        return Ok(s - k);
                    }
                    k += 1;
                }
            }
        })
    }
    pub fn is_eom(&self, s: i32) -> Result<bool, Off> {
        Ok(civ(s).m != civ(self.next(s + 1)?).m)
    }
    pub fn eom(&self, s: i32) -> Result<i32, Off> {
        self.prev(eom(s))
    }
    pub fn advance(&self, s: i32, n: i32, u: TimeUnit, c: B, e: bool) -> Result<i32, Off> {
        if n == 0 {
            return self.adjust(s, c);
        }
        let in_range = |x: i32| if (MIN..=MAX).contains(&x) { Ok(x) } else { Err(Off) };
        match u {
            TimeUnit::Days => {
                let mut d = s;
                for _ in 0..n.abs() {
                    d = if n > 0 { self.next(d + 1)? } else { self.prev(d - 1)? };
                }
                Ok(d)
            }
            TimeUnit::Weeks => self.adjust(in_range(s + 7 * n)?, c),
            _ => {
                let k = if u == TimeUnit::Years { 12 * n } else { n };
                let t = in_range(add_months(s, k))?;
                if e && self.is_eom(s)? {
                    self.eom(t)
                } else {
                    self.adjust(t, c)
                }
            }
        }
    }
    pub fn between(&self, a: i32, b: i32, incl_first: bool, incl_last: bool) -> i32 {
        if a == b {
            return (incl_first && incl_last && self.biz(a)) as i32;
        }
        let (lo, hi) = (a.min(b), a.max(b));
        let mut n = (lo + 1..hi).filter(|&s| self.biz(s)).count() as i32;
        n += (incl_first && self.biz(a)) as i32 + (incl_last && self.biz(b)) as i32;
        if a > b { -n } else { n }
    }
}
