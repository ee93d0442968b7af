//! C18: a date that is moved in place, by value and by periods, refused at the ends of its range,
//! replayed, stored and rebuilt always names one day - the one the calendar gives.
use crate::model::*;
use crate::ops::UNITS;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::months::Month;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::timeunit::TimeUnit as U;
use rust_quantlib::datetime::weekday::Weekday;
use simcore::{check, ev, Ctx, Res};
use std::collections::HashSet;

/// Every view of the date, against a serial number kept aside.
fn agree(c: &mut Ctx, d: &Date, s: i32, what: &str) -> Res {
    let v = civ(s);
    check!(d.serial_number() == s, "wrong-day", "{what}: {} expected {}", iso(d.serial_number()), iso(s));
    let view = lib!(c, (d.year(), i32::from(d.month()), d.day_of_month() as i32));
    check!(view == (v.y, v.m, v.d), "views-disagree", "{what}: serial says {}, the calendar view {view:?}", iso(s));
    let doy = lib!(c, d.day_of_year()) as i32;
    check!(doy == s - ser(v.y, 1, 1) + 1, "views-disagree", "{what}: {} is day {doy} of the year", iso(s));
    let w = i32::from(lib!(c, d.weekday()));
    check!(w % 7 == wd(s), "views-disagree", "{what}: {} has weekday {w}", iso(s));
    let (e, is) = lib!(c, (d.end_of_month(), d.is_end_of_month()));
    check!(is == is_eom(s) && e.serial_number() == eom(s) && e.day_of_month() as i32 == dim(v.y, v.m), "month-end", "{what}: {} has month end {} ({is})", iso(s), iso(e.serial_number()));
    let p = format!("{d:?}");
    check!(p.starts_with(&iso(s)), "views-disagree", "{what}: {} prints as {p}", iso(s));
    Ok(())
}
/// Where a move of n units leads; None outside the supported range.
fn moved(s: i32, n: i32, u: U) -> Option<i32> {
    let t = match u {
        U::Days => s as i64 + n as i64,
        U::Weeks => s as i64 + 7 * n as i64,
        U::Months => add_months(s, n) as i64,
        _ => add_months(s, 12 * n) as i64,
    };
    (MIN as i64..=MAX as i64).contains(&t).then_some(t as i32)
}
fn weekday(i: i32) -> Weekday {
    Weekday::from(i)
}

pub fn run(c: &mut Ctx) -> Res {
    let (f_edge, f_crash, f_refuse) = (c.chance(1, 3), c.chance(1, 2), c.chance(1, 2));
    let n = 1 + c.idx(3);
    let mut clocks: Vec<(Date, i32)> = vec![];
    for _ in 0..n {
        let s = if f_edge {
            if c.chance(1, 2) { MIN + c.range(0, 500) as i32 } else { MAX - c.range(0, 500) as i32 }
        } else if c.chance(1, 5) {
            ser(c.pick(&[1904, 1996, 2000, 2096, 2104, 2196, 1912, 2024]), 2, 29)
        } else {
            any_date(c, MIN, MAX)
        };
        clocks.push((lib!(c, Date::from_serial(s)), s));
    }
    let (first, last) = lib!(c, (Date::min_date(), Date::max_date()));
    agree(c, &first, MIN, "the first date")?;
    agree(c, &last, MAX, "the last date")?;
    // a stored value nobody touches
    let stored = clocks[0];
    let steps = 3 + c.tail(if c.thorough { 60 } else { 20 });
    for _ in 0..steps {
        let i = c.idx(n);
        let (d, s) = clocks[i];
        let u = c.pick(&UNITS);
        let k = match c.below(4) {
            0 => c.range(-3, 3),
            1 => c.range(-40, 40),
            2 => c.range(-400, 400),
            _ => c.pick(&[12, -12, 11, -11, 24, 13, 1, -1, 28, 29, 30, 31, -31, 365, 366, -366, 1460]),
        } as i32;
        let k = if u == U::Years { if c.chance(1, 3) { c.pick(&[4, -4, 8, -8, 1, -1, 96, 100, -100, 104]) } else { k % 40 } } else { k };
        let way = c.below(8);
        let (mut x, t) = (d, match way {
            0 | 1 | 2 | 3 => moved(s, if way % 2 == 0 { k } else { -k }, U::Days),
            4 | 6 => moved(s, k, u),
            _ => moved(s, -k, u),
        });
        if t.is_none() && !f_refuse {
            continue;
        }
        let by_ref = c.chance(1, 2);
        let r = c.catch(|| match way {
            0 if by_ref => x = &d + k,
            1 if by_ref => x = &d - k,
            4 if by_ref => x = if k % 2 == 0 { &d + Period::new(k, u) } else { &d + &Period::new(k, u) },
            5 if by_ref => x = &d - Period::new(k, u),
            0 => x = x + k,
            1 => x = x - k,
            2 => x += k,
            3 => x -= k,
            4 => x = x + Period::new(k, u),
            5 => x = x - Period::new(k, u),
            6 => x += Period::new(k, u),
            _ => x -= Period::new(k, u),
        });
        let what = format!("{} moved by {k} {}", iso(s), if way < 4 { "days".into() } else { format!("{u:?}") });
        match (t, r) {
            (Some(t), Ok(())) => {
                agree(c, &x, t, &what)?;
                let gap = lib!(c, if by_ref { &x - &d } else { x - d });
                check!(gap == t - s && lib!(c, Date::days_between(&d, &x)) == (t - s) as f64, "distance", "{what}: distance {gap}");
                c.sim_days((t - s).unsigned_abs() as u64);
                ev!(c, "{i}: {what}: {}", iso(t));
                clocks[i] = (x, t);
            }
            (None, Err(_)) => {
                c.fault("move-out-of-range-refused");
                // the date in place is as it was
                agree(c, &x, s, &format!("{what}, refused"))?;
                clocks[i].0 = x;
            }
            (Some(t), Err(m)) => simcore::fail!("refused", "{what} leads to {}, but was refused: {m}", iso(t)),
            (None, Ok(())) => simcore::fail!("out-of-range", "{what} leads outside 1900-2199 and was accepted: {x:?} ({})", x.serial_number()),
        }
        let (d, s) = clocks[i];
        let v = civ(s);
        match c.below(8) {
            7 if f_refuse => {
                // dates know no hours
                let (n, u) = (c.range(1, 50) as i32 * c.pick(&[1, -1]), c.pick(&[U::Hours, U::Minutes, U::Seconds, U::Milliseconds, U::Microseconds]));
                let mut x = d;
                let r = c.catch(|| if n % 2 == 0 { x += Period::new(n, u) } else { x = x - Period::new(n, u) });
                c.fault("move-by-hours-refused");
                check!(r.is_err(), "accepted-garbage", "{} moved by {n} {u:?} is {x:?}", iso(s));
                agree(c, &x, s, "after a refused move by hours")?;
            }
            0 if f_crash => {
                // only the serial number was stored
                c.fault("restart-from-serial");
                let y = lib!(c, Date::from_serial(d.serial_number()));
                check!(y == d && y.cmp(&d).is_eq(), "restart", "{} rebuilt from its serial is {y:?}", iso(s));
                clocks[i].0 = y;
            }
            1 if f_crash => {
                c.fault("restart-from-calendar-view");
                let y = lib!(c, Date::new(d.day_of_month(), d.month(), d.year()));
                agree(c, &y, s, "rebuilt from day, month and year")?;
                check!(y == d, "restart", "{} rebuilt from its day, month and year is {y:?}", iso(s));
                clocks[i].0 = y;
            }
            2 if f_crash => {
                // a torn record: a day that does not exist
                c.fault("torn-record");
                let (dd, m, y) = (v.d + c.pick(&[0, 1, 2, 3, 31]), 1 + c.idx(12) as i32, v.y + c.pick(&[0, 0, 1, -1, 300]));
                let ok = (1900..2200).contains(&y) && dd <= dim(y, m);
                let r = c.catch(|| Date::new(dd as u32, Month::from(m), y));
                match r {
                    Ok(z) => {
                        check!(ok, "accepted-garbage", "day {dd} of {m}/{y} was accepted as {z:?}");
                        agree(c, &z, ser(y, m, dd), "read back")?;
                    }
                    Err(e) => check!(!ok, "refused", "day {dd} of {m}/{y} was refused: {e}"),
                }
            }
            3 => {
                // netting moves into one period before applying it
                let big = c.chance(1, 2);
                let (us, base) = if big { ([U::Months, U::Years], (d - (v.d - 1), s - (v.d - 1))) } else { ([U::Days, U::Weeks], (d, s)) };
                let mut net = Period::new(0, U::Days);
                let mut one = Some(base.1);
                for _ in 0..1 + c.idx(5) {
                    let (k, u) = (c.range(-30, 30) as i32, c.pick(&us));
                    let sub = c.chance(1, 3);
                    lib!(c, if sub { net -= Period::new(k, u) } else { net += Period::new(k, u) });
                    one = one.and_then(|s| moved(s, if sub { -k } else { k }, u));
                }
                if let Some(t) = one {
                    if let Ok(y) = c.catch(|| base.0 + net) {
                        agree(c, &y, t, &format!("{} moved by the net period {net:?}", iso(base.1)))?;
                        c.probe("netted");
                    } else {
                        simcore::fail!("refused", "{} moved by the net period {net:?} was refused", iso(base.1));
                    }
                }
            }
            4 => {
                let (w, nth) = (1 + c.idx(7) as i32, 1 + c.idx(5));
                let first = ser(v.y, v.m, 1);
                let off = (w % 7 - wd(first)).rem_euclid(7);
                let day = 1 + off + 7 * (nth as i32 - 1);
                let r = c.catch(|| Date::nth_weekday(nth, weekday(w), Month::from(v.m), v.y));
                match r {
                    Ok(z) => agree(c, &z, ser(v.y, v.m, day), &format!("weekday {w} number {nth} of {}", iso(s)))?,
                    Err(e) => check!(day > dim(v.y, v.m), "refused", "weekday {w} number {nth} of {} was refused: {e}", iso(s)),
                }
            }
            5 => {
                // equal days are one member of a set and sort by day
                let mut set: HashSet<Date> = clocks.iter().map(|x| x.0).collect();
                set.insert(lib!(c, Date::from_serial(s)));
                let distinct: std::collections::BTreeSet<i32> = clocks.iter().map(|x| x.1).collect();
                check!(set.len() == distinct.len(), "identity", "{} dates on {} days make {} set members", clocks.len(), distinct.len(), set.len());
                let mut v: Vec<(Date, i32)> = clocks.clone();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                check!(v.windows(2).all(|w| w[0].1 <= w[1].1), "order", "dates sort as {:?}", v.iter().map(|x| iso(x.1)).collect::<Vec<_>>());
                let off = c.pick(&[65_536, 32_768, 16_384, 8192, 4096, 1024, 256, 128, 7, 28, 365, 366, 1461, 36_524]);
                for t in [s + off, s - off] {
                    if (MIN..=MAX).contains(&t) {
                        let e = lib!(c, Date::from_serial(t));
                        let two: HashSet<Date> = [d, e].into();
                        check!(d != e && two.len() == 2 && (d < e) == (s < t) && d.cmp(&e) == s.cmp(&t) && d.partial_cmp(&e) == Some(s.cmp(&t)), "identity", "{} and {} are taken for the same, or in the wrong order", iso(s), iso(t));
                    }
                }
                check!((clocks[0].0 < d) == (clocks[0].1 < s) && (clocks[0].0 == d) == (clocks[0].1 == s), "order", "{} against {}", iso(clocks[0].1), iso(s));
            }
            _ => {
                let j = c.idx(n);
                let (e, t) = clocks[j];
                agree(c, &e, t, "a date left alone")?;
            }
        }
        agree(c, &stored.0, stored.1, "a stored copy")?;
        c.sig((v.m as u64) | (v.d as u64) << 4 | (leap(v.y) as u64) << 9 | way << 10 | (k.signum() + 1) as u64 * 8192);
    }
    c.nontrivial = true;
    Ok(())
}
