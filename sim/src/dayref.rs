//! Day counts computed from their published definitions on civil dates, without the library.
//! A refusal (reference periods that make no sense) panics, as the library's does.
use crate::model::*;

/// Index of 30E/360 ISDA with the termination date `t`.
pub fn isda_until(t: i32) -> usize {
    1000 + t as usize
}
fn last_feb(v: Civ) -> bool {
    v.m == 2 && v.d == dim(v.y, 2)
}
fn thirty(a: Civ, b: Civ, da: i32, db: i32) -> i32 {
    360 * (b.y - a.y) + 30 * (b.m - a.m) + db - da
}

pub fn sane(ok: bool) {
    if !ok {
        std::panic::panic_any(simcore::seams::Refusal("no such reference period"));
    }
}

pub fn count(dc: usize, s: i32, e: i32) -> i32 {
    let (a, b) = (civ(s), civ(e));
    let (a30, b30) = (a.d.min(30), b.d.min(30));
    match dc {
        0 | 1 | 2 | 8 | 11 => e - s,
        3 => {
            let mut db = if a.d >= 30 { b30 } else { b.d };
            if last_feb(a) && last_feb(b) {
                db = 30;
            }
            thirty(a, b, if last_feb(a) { 30 } else { a30 }, db)
        }
        4 | 9 => thirty(a, b, a30, if a.d >= 30 { b30 } else { b.d }),
        5 => thirty(a, b, a30, b30),
        6 => {
            let up = |v: Civ| if v.m == 2 && v.d > 27 { 30 } else { v.d.min(30) };
            thirty(a, b, up(a), up(b))
        }
        7 => thirty(a, b, a30, if a.d >= 30 { b30 } else if b.d == 31 { 31 } else { b.d }),
        10 => thirty(a, b, a.d, b.d),
        12 | 13 => e - s + 1,
        14 => if e >= s { 1 } else { -1 },
        t => {
            let t = t as i32 - 1000;
            thirty(a, b, if last_feb(a) { 30 } else { a30 }, if last_feb(b) && e != t { 30 } else { b30 })
        }
    }
}

/// `ra`, `rb`: reference period, 0 where there is none.
pub fn fraction(dc: usize, s: i32, e: i32, ra: i32, rb: i32) -> f64 {
    let n = count(dc, s, e) as f64;
    match dc {
        0 => n / 360.0,
        1 => n / 366.0,
        2 | 8 | 11 if s == e => 0.0,
        2 | 8 | 11 if s > e => -fraction(dc, e, s, ra, rb),
        2 => {
            // every day counts in the year it falls in
            let (a, b) = (civ(s).y, civ(e).y);
            (a..=b)
                .map(|y| {
                    let (first, next) = (ser(y, 1, 1), ser(y + 1, 1, 1));
                    (e.min(next) - s.max(first)) as f64 / (next - first) as f64
                })
                .sum()
        }
        8 => old_isma(s, e, if ra == 0 { s } else { ra }, if rb == 0 { e } else { rb }),
        9 => {
            let (a, b) = (civ(s), civ(e));
            let whole = a.d == b.d || (a.d > b.d && is_eom(e)) || (a.d < b.d && is_eom(s));
            if whole { (b.y - a.y) as f64 + (b.m - a.m) as f64 / 12.0 } else { n / 360.0 }
        }
        10 => n / 365.0,
        12 => n / 360.0,
        13 => n / 366.0,
        14 => n,
        11 => afb(s, e),
        _ => n / 360.0,
    }
}

/// Time in reference periods, each worth its rounded number of months.
fn old_isma(s: i32, e: i32, ra: i32, rb: i32) -> f64 {
    if s == e {
        return 0.0;
    }
    sane(rb > ra && rb > s);
    let mut months = (12.0 * (rb - ra) as f64 / 365.0).round() as i32;
    let (mut ra, mut rb) = (ra, rb);
    if months == 0 {
        // too short to be a period: a year from the start
        (ra, rb, months) = (s, add_months(s, 12), 12);
        sane(rb <= MAX);
    }
    let worth = months as f64 / 12.0;
    if e <= rb && s >= ra {
        worth * (e - s) as f64 / (rb - ra) as f64
    } else if e <= rb {
        // starts before the reference period: count in the period before it
        let before = add_months(ra, -months);
        sane(before >= MIN);
        if e > ra {
            old_isma(s, ra, before, ra) + old_isma(ra, e, ra, rb)
        } else {
            old_isma(s, e, before, ra)
        }
    } else {
        sane(s >= ra);
        let mut k = 0;
        while e >= add_months(rb, months * (k + 1)) {
            k += 1;
        }
        let (x, y) = (add_months(rb, months * k), add_months(rb, months * (k + 1)));
        sane(y <= MAX);
        old_isma(s, rb, ra, rb) + k as f64 * worth + if e > x { old_isma(x, e, x, y) } else { 0.0 }
    }
}

/// Whole years back from the end, and the rest over 366 if it holds a leap day, else 365.
fn afb(s: i32, e: i32) -> f64 {
    let mut years = 0;
    let mut end = e;
    loop {
        let mut t = add_months(end, -12);
        sane(t >= MIN);
        let v = civ(t);
        if v.m == 2 && v.d == 28 && leap(v.y) {
            t += 1;
        }
        if t >= s {
            years += 1;
            end = t;
        }
        if t <= s {
            break;
        }
    }
    let feb29 = |y: i32| leap(y).then(|| ser(y, 2, 29));
    let day = feb29(civ(end).y).or(feb29(civ(s).y));
    let basis = if day.map_or(false, |d| s <= d && d < end) { 366.0 } else { 365.0 };
    years as f64 + (end - s) as f64 / basis
}
