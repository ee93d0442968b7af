//! C21: a desk of meters, one per day-count convention, read from their anchors along a clock that ticks,
//! jumps and is set back, re-anchored, rebuilt from their terms, and asked about senseless reference periods.
use crate::dayref;
use crate::gen::*;
use crate::model::*;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::daycounters::{actual360::Actual360, one::One};
use rust_quantlib::datetime::{time_to_days, time_to_days_with_days_per_year};
use simcore::{check, ev, Ctx, Res};

/// The same convention, by another of its names.
fn again(i: usize, other: bool) -> DayCounter {
    match i {
        0 if other => DayCounter::Actual360(Actual360::with_last_day(false)),
        4 if other => DayCounter::bond_basis(),
        5 if other => DayCounter::euro_bond_basis(),
        14 if other => DayCounter::One(One::default()),
        t if t >= 1000 && other => DayCounter::german(dt(t as i32 - 1000)),
        _ => dc(i),
    }
}
fn kind(i: usize) -> usize {
    i.min(1000)
}

struct Meter {
    dc: usize,
    lib: DayCounter,
    anchor: i32,
    /// What the steps since the anchor added up to, in days and years, while the clock only went forward.
    days: i64,
    years: f64,
    refs: (i32, i32),
}
/// One reading against the convention; None where the convention has no answer.
fn read(c: &mut Ctx, m: &Meter, a: i32, b: i32, refs: (i32, i32)) -> Res<Option<(i32, f64)>> {
    let n = lib!(c, m.lib.day_count(&dt(a), &dt(b)));
    let wn = dayref::count(m.dc, a, b);
    check!(n == wn, "days", "{:?} counts {n} days from {} to {}, its convention {wn}", m.lib, iso(a), iso(b));
    let want = c.catch(|| dayref::fraction(m.dc, a, b, refs.0, refs.1));
    let (x, y) = (d0(refs.0), d0(refs.1));
    let got = c.catch(|| m.lib.year_fraction(&dt(a), &dt(b), &x, &y));
    let Ok(w) = want else {
        c.fault("senseless-reference-period");
        check!(got.is_err(), "accepted-reference", "{:?} from {} to {} by the reference period {} to {} is {got:?}", m.lib, iso(a), iso(b), iso(refs.0), iso(refs.1));
        return Ok(None);
    };
    let g = match got {
        Ok(g) => g,
        Err(e) => simcore::fail!("panic", "{:?} from {} to {} by the reference period {} to {} panicked: {e}", m.lib, iso(a), iso(b), iso(refs.0), iso(refs.1)),
    };
    check!((g - w).abs() <= 1e-12 * (1.0 + w.abs()), "years", "{:?} from {} to {} by {} to {} is {g} years, its convention gives {w}", m.lib, iso(a), iso(b), iso(refs.0), iso(refs.1));
    Ok(Some((n, g)))
}
/// None, sensible ones, and now and then any.
fn refs(c: &mut Ctx, f_bad: bool, a: i32, b: i32) -> (i32, i32) {
    let (a, b) = (a.min(b), a.max(b));
    match c.below(6) {
        0 | 1 => (0, 0),
        2 => (a, b),
        3 | 4 => {
            // a regular period around the start
            let months = c.pick(&[1, 2, 3, 4, 6, 12]);
            let s = a - c.range(0, 28 * months as i64) as i32;
            let e = add_months(s, months);
            if s > MIN && e < MAX && a < e { (s, e) } else { (0, 0) }
        }
        _ if f_bad => {
            let s = any_date(c, (a - 800).max(MIN + 1), (b + 800).min(MAX));
            let e = any_date(c, (a - 800).max(MIN + 1), (b + 800).min(MAX));
            (if c.chance(1, 4) { 0 } else { s }, if c.chance(1, 4) { 0 } else { e })
        }
        _ => (0, 0),
    }
}

pub fn run(c: &mut Ctx) -> Res {
    let wide = c.chance(1, 8);
    let (lo, hi) = if wide { (MIN + 1, MAX) } else { (ser(1912, 1, 1), ser(2180, 12, 31)) };
    let mut t = any_date(c, lo, hi);
    let (f_jump, f_back, f_crash, f_bad) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 2), c.chance(1, 2));
    let mut desk: Vec<Meter> = vec![];
    for _ in 0..1 + c.tail(5) {
        let i = match c.below(N_DC as u64 + 2) as usize {
            i if i < N_DC => i,
            _ => dayref::isda_until(if c.chance(1, 2) { let y = civ(t).y; let m = if c.chance(1, 2) { 2 } else { c.range(1, 12) as i32 }; eom(ser((y + c.range(-2, 4) as i32).clamp(1901, 2198), m, 1)) } else { any_date(c, lo, hi) }),
        };
        let other = c.chance(1, 2);
        desk.push(Meter { dc: i, lib: lib!(c, again(i, other)), anchor: t, days: 0, years: 0.0, refs: (0, 0) });
    }
    ev!(c, "from {}: {:?}", iso(t), desk.iter().map(|m| &m.lib).collect::<Vec<_>>());
    let steps = 3 + c.tail(if c.thorough { 40 } else { 16 });
    for _ in 0..steps {
        let before = t;
        match c.below(12) {
            0 | 1 => t += 1,
            2 => t = eom(t + 1),
            3 => t = any_date(c, t, (t + 70).min(hi).max(t)),
            4 => {
                // the end of a February, and the days around it
                let y = civ(t).y + c.range(0, 2) as i32;
                t = ser(y, 2, 28) + c.range(-1, 2) as i32
            }
            5 => t = add_months(t, c.pick(&[1, 3, 6, 12, 24])),
            6 if f_jump => {
                c.fault("clock-jump-forward");
                t += c.range(300, 9000) as i32
            }
            7 if f_back => {
                c.fault("clock-set-back");
                t -= c.range(1, 4000) as i32
            }
            8 if f_crash => {
                // a meter is rebuilt from its terms, and is the same meter
                c.fault("rebuild-from-terms");
                let k = c.idx(desk.len());
                let other = c.chance(1, 2);
                let x = lib!(c, again(desk[k].dc, other));
                let (same, name) = (x == desk[k].lib, x.name() == desk[k].lib.name());
                check!(same && name, "rebuilt", "{x:?} rebuilt is not {:?}", desk[k].lib);
                check!(format!("{x:?}") == x.name(), "rebuilt", "{x:?} is named {}", x.name());
                for m in &desk {
                    check!((m.lib == x) == (kind(m.dc) == kind(desk[k].dc)), "identity", "{x:?} equals {:?}: {}", m.lib, m.lib == x);
                    check!((m.lib == x) == (x == m.lib), "identity", "{x:?} and {:?}", m.lib);
                }
                desk[k].lib = x;
            }
            9 => {
                // re-anchored
                let k = c.idx(desk.len());
                let m = &mut desk[k];
                (m.anchor, m.days, m.years) = (t, 0, 0.0);
            }
            10 => {
                let k = c.idx(desk.len());
                desk[k].refs = refs(c, f_bad, desk[k].anchor, t);
            }
            _ => {
                // any two days
                let k = c.idx(desk.len());
                let (a, b) = (any_date(c, lo, hi), any_date(c, lo, hi));
                let b = if c.chance(1, 2) { b } else { any_date(c, (a - 1500).max(lo), (a + 1500).min(hi)) };
                let r = refs(c, f_bad, a, b);
                read(c, &desk[k], a, b, r)?;
            }
        }
        if t < lo || t > hi {
            t = before;
        }
        c.sim_days((t - before).unsigned_abs() as u64);
        for k in 0..desk.len() {
            if desk.len() > 4 && c.chance(1, 2) {
                // not read every day; the step is taken all the same
                let m = &mut desk[k];
                m.days += dayref::count(m.dc, before, t) as i64;
                m.years += c.catch(|| dayref::fraction(m.dc, before, t, 0, 0)).unwrap_or(0.0);
                continue;
            }
            let m = &desk[k];
            if let Some((n, y)) = read(c, m, before, t, (0, 0))? {
                let m = &mut desk[k];
                m.days += n as i64;
                m.years += y;
            }
            let m = &desk[k];
            let whole = read(c, m, m.anchor, t, m.refs)?;
            let back = read(c, m, t, m.anchor, (0, 0))?;
            if let (Some(base), Some((n, y))) = ([Some(360), Some(366)].get(m.dc).copied().flatten(), whole) {
                // the days again, from the years
                let g = lib!(c, if base == 360 && t % 2 == 0 { time_to_days(y) } else { time_to_days_with_days_per_year(y, base) });
                check!(g == n, "days-from-years", "{y} years of {base} days are {g} days, {} to {} is {n}", iso(m.anchor), iso(t));
            }
            if m.dc < N_ADDITIVE {
                // these add up, whatever way the clock took
                let (n, y) = whole.unwrap();
                check!(m.days == n as i64 && (m.years - y).abs() <= 1e-10 * (1.0 + y.abs()), "conservation", "{:?}: {} to {} is {n} days and {y} years; step by step it was {} and {}", m.lib, iso(m.anchor), iso(t), m.days, m.years);
                let (nb, yb) = back.unwrap();
                check!(nb == -n && (y + yb).abs() <= 1e-12 * (1.0 + y.abs()), "backwards", "{:?}: {} to {} is {n} days and {y} years, {nb} and {yb} backwards", m.lib, iso(m.anchor), iso(t));
            }
            if !matches!(m.dc, 8) {
                // a reference period is nothing to these
                let r = refs(c, true, m.anchor, t);
                if !(m.dc == 11 && whole.is_none()) {
                    let (g, w) = (lib!(c, m.lib.year_fraction(&dt(m.anchor), &dt(t), &d0(r.0), &d0(r.1))), lib!(c, m.lib.year_fraction(&dt(m.anchor), &dt(t), &Date::default(), &Date::default())));
                    check!(g == w, "reference", "{:?}: {} to {} is {g} years by the reference period {} to {}, {w} without one", m.lib, iso(m.anchor), iso(t), iso(r.0), iso(r.1));
                }
            }
            let v = civ(t);
            c.sig(kind(m.dc) as u64 | (v.m as u64) << 12 | (v.d as u64) << 16 | (leap(v.y) as u64) << 22 | ((t > m.anchor) as u64) << 23 | (civ(m.anchor).d.max(27) as u64) << 24 | ((civ(m.anchor).m == 2) as u64) << 30 | ((m.refs.0 != 0) as u64) << 31);
            if t != m.anchor {
                c.nontrivial = true;
            }
        }
    }
    Ok(())
}
