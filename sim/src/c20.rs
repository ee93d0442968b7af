//! C20: trading desks in several markets open on a shared clock that ticks, jumps and is set back; they
//! restart, and get notices of holidays already published. They are open on the days the rules give.
use crate::cal::*;
use crate::hol;
use crate::model::*;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::calendar::Calendar;
use simcore::{check, ev, Ctx, Res};

struct Desk {
    market: usize,
    lib: Calendar,
    opened: u32,
    /// days in a row looked at, ending today, and those of them that were open
    since: i32,
}
/// Open or closed, where the rules say.
fn open(m: usize, s: i32) -> Option<bool> {
    hol::closed(m, s).map(|x| !x)
}
fn day(c: &mut Ctx, d: &Desk, s: i32) -> Res<Option<bool>> {
    let Some(w) = hol::closed(d.market, s) else {
        c.probe("left-open");
        return Ok(None);
    };
    let h = lib!(c, d.lib.is_holiday(&dt(s)));
    let names = ["Saturday", "Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday"];
    check!(h == w, "holiday", "{}: {} {} is a {}, the rules make it a {}", d.lib.name(), names[wd(s) as usize], iso(s), if h { "holiday" } else { "business day" }, if w { "holiday" } else { "business day" });
    let off = lib!(c, d.lib.is_weekend(dt(s).weekday()));
    check!(off == hol::weekend(d.market, s), "weekend", "{}: {} is in a weekend: {off}", d.lib.name(), names[wd(s) as usize]);
    Ok(Some(!w))
}

pub fn run(c: &mut Ctx) -> Res {
    let (lo, hi) = (MIN + 450, MAX - 450);
    let near = c.chance(1, 2);
    let mut t = if near { any_date(c, ser(1950, 1, 1), ser(2050, 12, 31)) } else { any_date(c, lo, hi) };
    let (f_bad_year, f_jump, f_back, f_crash, f_notice) = (c.chance(1, 4), c.chance(1, 2), c.chance(1, 2), c.chance(1, 2), c.chance(1, 2));
    let mut desks = vec![];
    for _ in 0..1 + c.idx(4) {
        let market = c.idx(N_MARKETS);
        desks.push(Desk { market, lib: lib!(c, market_of(market)), opened: 0, since: i32::MAX });
    }
    ev!(c, "from {}: {:?}", iso(t), desks.iter().map(|d| d.lib.name()).collect::<Vec<_>>());
    let steps = 4 + c.tail(if c.thorough { 60 } else { 24 });
    for _ in 0..steps {
        let before = t;
        let y = civ(t).y;
        match c.below(14) {
            0 | 1 | 2 => t += 1,
            3 => {
                // the next day this desk is open
                let k = c.idx(desks.len());
                let g = lib!(c, desks[k].lib.adjust(dt(t + 1), B::Following)).serial_number();
                let m = desks[k].market;
                if (t + 1..=g).all(|s| open(m, s).is_some()) {
                    check!((t + 1..g).all(|s| open(m, s) == Some(false)) && open(m, g) == Some(true), "next", "{}: after {} it next opens on {}", desks[k].lib.name(), iso(t), iso(g));
                }
                t = g;
            }
            4 => t = hol::easter(y + 1) + c.range(-50, 62) as i32,
            5 => t = ser(y + 1, 1, 1) + c.range(-12, 4) as i32,
            6 => t = ser(y + c.range(0, 2) as i32, c.range(1, 12) as i32, 1) + c.range(0, 30) as i32,
            7 if f_jump => {
                c.fault("clock-jump-forward");
                t += c.range(200, 12000) as i32
            }
            8 if f_back => {
                c.fault("clock-set-back");
                t -= c.range(1, 12000) as i32
            }
            9 if f_crash => {
                c.fault("restart");
                let k = c.idx(desks.len());
                let x = lib!(c, market_of(desks[k].market));
                check!(x.name() == desks[k].lib.name(), "identity", "{} restarts as {}", desks[k].lib.name(), x.name());
                desks[k].lib = x;
            }
            10 if f_notice => {
                // a holiday already published, or a day already open, is published again
                c.fault("notice-redelivered");
                let k = c.idx(desks.len());
                for _ in 0..1 + c.idx(4) {
                    let s = t + c.range(-20, 20) as i32;
                    match open(desks[k].market, s) {
                        Some(true) => lib!(c, desks[k].lib.remove_holiday(dt(s))),
                        Some(false) => lib!(c, desks[k].lib.add_holiday(dt(s))),
                        None => {}
                    }
                }
            }
            11 => {
                // the list of the year's holidays
                let k = c.idx(desks.len());
                let (a, b) = if c.chance(1, 2) { (ser(y, 1, 1), ser(y, 12, 31)) } else { (t, t + c.range(0, 400) as i32) };
                let (a, b) = (a.max(MIN), b.min(MAX - 10));
                if a <= b && (a..=b).all(|s| open(desks[k].market, s).is_some()) {
                    let all = c.chance(1, 2);
                    let g: Vec<i32> = lib!(c, desks[k].lib.holiday_list(dt(a), dt(b), all)).iter().map(|d| d.serial_number()).collect();
                    let w: Vec<i32> = (a..=b).filter(|&s| open(desks[k].market, s) == Some(false) && (all || !hol::weekend(desks[k].market, s))).collect();
                    let odd = |x: &[i32], y: &[i32]| x.iter().filter(|s| !y.contains(s)).map(|s| iso(*s)).collect::<Vec<_>>();
                    check!(g == w, "list", "{}: {} to {} lists {:?} beyond the rules, and lacks {:?}", desks[k].lib.name(), iso(a), iso(b), odd(&g, &w), odd(&w, &g));
                    c.probe("year-listed");
                }
            }
            12 => {
                let k = c.idx(desks.len());
                let (a, b) = (t, (t + c.range(-400, 400) as i32).clamp(MIN, MAX));
                let (x, z) = (a.min(b), a.max(b));
                if (x..=z).all(|s| open(desks[k].market, s).is_some()) {
                    let g = lib!(c, desks[k].lib.business_days_between(dt(a), dt(b), true, true));
                    let n = (x..=z).filter(|&s| open(desks[k].market, s) == Some(true)).count() as i32;
                    check!(g == if a <= b { n } else { -n }, "count", "{}: {} to {} has {g} business days, the rules give {n}", desks[k].lib.name(), iso(a), iso(b));
                }
            }
            _ => {
                use rust_quantlib::datetime::{calendar, holiday};
                let years: Vec<i32> = (0..1 + c.idx(12)).map(|i| if i == 0 { y } else { c.range(1900, 2199) as i32 }).collect();
                for y in years {
                    let first = ser(y, 1, 1);
                    let g = (lib!(c, calendar::easter_monday(y)) as i32, lib!(c, calendar::easter_monday_orthodox(y)) as i32);
                    let h = (lib!(c, holiday::easter_monday(y)) as i32, lib!(c, holiday::easter_monday_orthodox(y)) as i32);
                    let w = (hol::easter(y) + 2 - first, hol::easter_orthodox(y) + 2 - first);
                    check!(g == w && h == w, "easter", "in {y} Easter Mondays are days {g:?} (or {h:?}) of the year, the computus gives {w:?}");
                }
                if f_bad_year {
                    c.fault("year-off-the-tables");
                    let y = c.pick(&[1899, 2200, -1, i32::MAX, 0, i32::MIN]);
                    let r = c.catch(|| (calendar::easter_monday(y), 0)).is_err() && c.catch(|| (calendar::easter_monday_orthodox(y), 0)).is_err();
                    let q = c.catch(|| (holiday::easter_monday(y), 0)).is_err() && c.catch(|| (holiday::easter_monday_orthodox(y), 0)).is_err();
                    check!(r && q, "off-the-tables", "Easter of {y} was answered");
                }
                use rust_quantlib::datetime::weekend::*;
                for w in 1..=7 {
                    let d = rust_quantlib::datetime::weekday::Weekday::from(w);
                    let g = lib!(c, (WesternWeekend {}.is_weekend(d), OrthodoxWeekend {}.is_weekend(d), NilWeekend {}.is_weekend(d)));
                    let off = w == 1 || w == 7;
                    check!(g == (off, off, false), "weekend", "weekday {w} in weekends: {g:?}");
                }
            }
        }
        if t < lo || t > hi {
            t = before;
        }
        c.sim_days((t - before).unsigned_abs() as u64);
        for k in 0..desks.len() {
            // it opens, or not, today, and on a day nearby
            let d = &desks[k];
            let opened = day(c, d, t)?;
            let s = t + c.range(-7, 7) as i32;
            day(c, d, s)?;
            let d = &mut desks[k];
            if t != before + 1 || d.since > t {
                d.since = t;
                d.opened = 0;
            }
            d.opened += (opened == Some(true)) as u32;
            if opened.is_none() {
                d.since = t + 1;
                d.opened = 0;
            }
            let (since, n) = (d.since, d.opened as i32);
            if since < t {
                let g = lib!(c, desks[k].lib.business_days_between(dt(since), dt(t), true, true));
                check!(g == n, "conservation", "{}: open {n} times from {} to {}, {g} business days between", desks[k].lib.name(), iso(since), iso(t));
            }
            let v = civ(t);
            c.sig(desks[k].market as u64 | (v.m as u64) << 5 | (v.d as u64) << 9 | (wd(t) as u64) << 14 | ((v.y as u64).clamp(1950, 2050)) << 17);
        }
        c.nontrivial = true;
    }
    Ok(())
}
fn market_of(m: usize) -> Calendar {
    market(m)
}
