//! The markets' holidays from their published rules: lists of dates, named and moved as the markets do, by the
//! computus and the almanac rather than tables. Shares nothing with the library.
use crate::model::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// Easter Sunday by the Gregorian computus (Meeus, Jones and Butcher).
pub fn easter(y: i32) -> i32 {
    let (a, b, c) = (y % 19, y / 100, y % 100);
    let h = (19 * a + b - b / 4 - (b - (b + 8) / 25 + 1) / 3 + 15) % 30;
    let l = (32 + 2 * (b % 4) + 2 * (c / 4) - h - c % 4) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    let t = h + l - 7 * m + 114;
    ser(y, t / 31, t % 31 + 1)
}
/// Orthodox Easter Sunday: the Julian computus, on Gregorian dates.
pub fn easter_orthodox(y: i32) -> i32 {
    let d = (19 * (y % 19) + 15) % 30;
    let e = (2 * (y % 4) + 4 * (y % 7) - d + 34) % 7;
    let t = d + e + 114;
    // Julian days are behind by 13 days from March 1900, 14 from March 2100
    ser(y, t / 31, t % 31 + 1) + if y < 2100 { 13 } else { 14 }
}
/// Day of March of the vernal and day of September of the autumnal equinox in Japan, by the almanac
/// office's formula; twice where they nearly fall on another day.
fn equinox(y: i32, spring: bool) -> [i32; 2] {
    let a = if spring { 20.6897 } else { 23.0914 };
    let x = a + 0.242194 * (y - 2000) as f64 - ((y - 2000).div_euclid(4) - (y - 2000).div_euclid(100) + (y - 2000).div_euclid(400)) as f64;
    [(x - 0.02).floor() as i32, (x + 0.02).floor() as i32]
}
const SUN: i32 = 1;
const MON: i32 = 2;

const WED: i32 = 4;
const THU: i32 = 5;
/// The nth weekday of a month; from the end if n is negative.
fn nth(y: i32, m: i32, w: i32, n: i32) -> i32 {
    let first = ser(y, m, 1);
    if n > 0 {
        first + (w - wd(first)).rem_euclid(7) + 7 * (n - 1)
    } else {
        let last = eom(first);
        last - (wd(last) - w).rem_euclid(7)
    }
}
/// Moved to Monday from a Sunday.
fn monday(s: i32) -> i32 {
    if wd(s) == SUN { s + 1 } else { s }
}
/// Moved to Monday from a Sunday and to Friday from a Saturday.
fn nearest(s: i32) -> i32 {
    match wd(s) {
        0 => s - 1,
        1 => s + 1,
        _ => s,
    }
}

#[derive(Default)]
struct Year {
    days: Vec<i32>,
    /// where the rules leave it open
    open: Vec<i32>,
}
fn united_states(y: i32, market: usize, h: &mut Vec<i32>) {
    let (libor, nyse, bond, nerc, fed) = (market == 7, market == 8, market == 9, market == 10, market == 11);
    let settlement = market == 6 || libor;
    let to_friday = |s: i32| if nerc || fed { monday(s) } else { nearest(s) };
    h.push(if settlement { nearest(ser(y, 1, 1)) } else { monday(ser(y, 1, 1)) });
    if !nerc {
        if y >= if nyse { 1998 } else { 1983 } {
            h.push(nth(y, 1, MON, 3));
        }
        h.push(if y >= 1971 { nth(y, 2, MON, 3) } else { nearest(ser(y, 2, 22)) });
        if y >= 2022 {
            h.push(nearest(ser(y, 6, 19)));
        }
    }
    h.push(if y >= 1971 { nth(y, 5, MON, -1) } else { nearest(ser(y, 5, 30)) });
    let july4 = ser(y, 7, 4);
    h.push(if libor && y >= 2015 { july4 } else { to_friday(july4) });
    h.push(nth(y, 9, MON, 1));
    if !nerc && !nyse {
        if y >= 1971 {
            h.push(nth(y, 10, MON, 2));
        }
        let day = ser(y, 11, 11);
        h.push(if (1971..1978).contains(&y) { nth(y, 10, MON, 4) } else if settlement { nearest(day) } else { monday(day) });
    }
    h.push(nth(y, 11, THU, 4));
    h.push(to_friday(ser(y, 12, 25)));
    if nyse || bond && y != 2015 {
        h.push(easter(y) - 2);
    }
    let mut closed = |xs: &[(i32, i32, i32)]| h.extend(xs.iter().filter(|x| x.0 == y).map(|x| ser(x.0, x.1, x.2)));
    if bond {
        closed(&[(2018, 12, 5), (2012, 10, 30), (2004, 6, 11)]);
    }
    if nyse {
        closed(&[
            (2018, 12, 5), (2012, 10, 29), (2012, 10, 30), (2007, 1, 2), (2004, 6, 11), (2001, 9, 11), (2001, 9, 12), (2001, 9, 13), (2001, 9, 14),
            (1994, 4, 27), (1985, 9, 27), (1977, 7, 14), (1973, 1, 25), (1972, 12, 28), (1969, 7, 21), (1969, 3, 31), (1969, 2, 10), (1968, 7, 5),
            (1968, 4, 9), (1963, 11, 25), (1961, 5, 29), (1958, 12, 26), (1954, 12, 24), (1956, 12, 24), (1965, 12, 24),
        ]);
        if y <= 1968 || y <= 1980 && y % 4 == 0 {
            // election day: the Tuesday after the first Monday
            h.push(nth(y, 11, MON, 1) + 1);
        }
        if y == 1968 {
            h.extend((ser(1968, 6, 12)..=ser(1968, 12, 31)).filter(|&s| wd(s) == WED));
        }
    }
}
fn united_kingdom(y: i32, h: &mut Vec<i32>) {
    let e = easter(y);
    let new_year = ser(y, 1, 1);
    h.extend([match wd(new_year) { 0 => new_year + 2, 1 => new_year + 1, _ => new_year }, e - 2, e + 1]);
    h.push(if y == 1995 || y == 2020 { ser(y, 5, 8) } else { nth(y, 5, MON, 1) });
    match y {
        2002 => h.extend([ser(y, 6, 3), ser(y, 6, 4)]),
        2012 => h.extend([ser(y, 6, 4), ser(y, 6, 5)]),
        2022 => h.extend([ser(y, 6, 2), ser(y, 6, 3), ser(y, 9, 19)]),
        _ => h.push(nth(y, 5, MON, -1)),
    }
    match y {
        2011 => h.push(ser(y, 4, 29)),
        2023 => h.push(ser(y, 5, 8)),
        1999 => h.push(ser(y, 12, 31)),
        _ => {}
    }
    h.push(nth(y, 8, MON, -1));
    for d in [25, 26] {
        let s = ser(y, 12, d);
        h.push(if wd(s) < MON { s + 2 } else { s });
    }
}
fn japan(y: i32, t: &mut Year) {
    let h = &mut t.days;
    let at = |m: i32, d: i32| ser(y, m, d);
    h.extend([at(1, 1), at(1, 2), at(1, 3), at(12, 31), monday(at(2, 11)), monday(at(4, 29)), at(5, 3), at(5, 4), at(5, 5), monday(at(11, 3)), monday(at(11, 23))]);
    // one of the days of May on a Sunday is made good after them
    if [3, 4, 5].iter().any(|&d| wd(at(5, d)) == SUN) {
        h.push(at(5, 6));
    }
    h.push(if y >= 2000 { nth(y, 1, MON, 2) } else { monday(at(1, 15)) });
    match y {
        1989..=2018 => h.push(monday(at(12, 23))),
        2020.. => h.push(monday(at(2, 23))),
        _ => {}
    }
    match y {
        2020 => h.extend([at(7, 23), at(8, 10), at(7, 24)]),
        2021 => h.extend([at(7, 22), at(8, 9), at(7, 23)]),
        _ => {
            if y >= 1996 {
                h.push(if y >= 2003 { nth(y, 7, MON, 3) } else { monday(at(7, 20)) });
            }
            if y >= 2016 {
                h.push(monday(at(8, 11)));
            }
            h.push(if y >= 2000 { nth(y, 10, MON, 2) } else { monday(at(10, 10)) });
        }
    }
    let aged = if y >= 2003 { nth(y, 9, MON, 3) } else { monday(at(9, 15)) };
    h.push(aged);
    let (spring, autumn) = (equinox(y, true), equinox(y, false));
    for (m, days) in [(3, spring), (9, autumn)] {
        if days[0] == days[1] {
            h.push(monday(at(m, days[0])));
        } else {
            t.open.extend(at(m, days[0])..=at(m, days[1]) + 1);
        }
    }
    if y >= 2003 && autumn[0] == autumn[1] && at(9, autumn[0]) == aged + 2 {
        h.push(aged + 1);
    }
    if autumn[0] != autumn[1] {
        t.open.extend(at(9, 16)..=at(9, 25));
    }
    match y {
        1959 => h.push(at(4, 10)),
        1989 => h.push(at(2, 24)),
        1990 => h.push(at(11, 12)),
        1993 => h.push(at(6, 9)),
        2019 => h.extend([at(4, 30), at(5, 1), at(5, 2), at(10, 22)]),
        _ => {}
    }
}
fn year(market: usize, y: i32) -> Year {
    let mut t = Year::default();
    let h = &mut t.days;
    let e = easter(y);
    let at = |m: i32, d: i32| ser(y, m, d);
    match market {
        0 | 1 => {}
        2 => {
            h.extend([at(1, 1), at(12, 25)]);
            if y >= 2000 {
                h.extend([e - 2, e + 1, at(5, 1), at(12, 26)]);
            }
            if [1998, 1999, 2001].contains(&y) {
                h.push(at(12, 31));
            }
        }
        3..=5 => united_kingdom(y, h),
        6..=11 => united_states(y, market, h),
        12 | 13 => {
            h.extend([at(1, 1), at(4, 21), at(5, 1), at(9, 7), at(10, 12), at(11, 2), at(11, 15), at(12, 25)]);
            // Carnival, the Passion and Corpus Christi
            h.extend([e - 48, e - 47, e - 2, e + 60]);
            if market == 13 {
                h.extend([at(1, 25), at(7, 9), at(12, 24)]);
                if y >= 2007 {
                    h.push(at(11, 20));
                }
                let last = at(12, 31);
                h.push(last - [1, 2, 0, 0, 0, 0, 0][wd(last) as usize]);
            }
        }
        14 => {
            h.extend([at(1, 1), at(1, 6), e + 1, at(4, 25), at(5, 1), at(8, 15), at(11, 1), at(12, 8), at(12, 25), at(12, 26)]);
            if y >= 2000 {
                h.push(at(6, 2));
            }
            if y == 1999 {
                h.push(at(12, 31));
            }
        }
        15 => h.extend([at(1, 1), e - 2, e + 1, at(5, 1), at(8, 15), at(12, 24), at(12, 25), at(12, 26), at(12, 31)]),
        16 => japan(y, &mut t),
        _ => h.extend([at(1, 1), at(1, 2), e - 2, e + 1, e + 39, e + 50, at(5, 1), at(8, 1), at(12, 25), at(12, 26)]),
    }
    t
}

thread_local! {
    static YEARS: RefCell<HashMap<(usize, i32), Rc<Year>>> = RefCell::new(HashMap::new());
}
pub fn weekend(market: usize, s: i32) -> bool {
    market != 0 && wd(s) < MON
}
/// Whether the market is closed on the day; None where the rules leave it open.
pub fn closed(market: usize, s: i32) -> Option<bool> {
    if weekend(market, s) {
        return Some(true);
    }
    let get = |y: i32| YEARS.with(|m| m.borrow_mut().entry((market, y)).or_insert_with(|| Rc::new(year(market, y))).clone());
    let y = civ(s).y;
    let t = get(y);
    // the first of the next year may be kept on the last Friday of this one
    let listed = t.days.contains(&s) || civ(s).m == 12 && get(y + 1).days.contains(&s);
    if !listed && t.open.contains(&s) { None } else { Some(listed) }
}


