//! Independent reference arithmetic: proleptic Gregorian civil dates (days-from-civil algorithm),
//! weekday, month arithmetic. Shares nothing with the library's tables.
use rust_quantlib::datetime::date::Date;

/// Runs library code; a panic of the library where the property promises an answer is a violation.
#[macro_export]
macro_rules! lib {
    ($c:expr, $e:expr) => {
        match $c.catch(|| $e) {
            Ok(v) => v,
            Err(m) => simcore::fail!("panic", "{} panicked: {}", stringify!($e), m),
        }
    };
}

pub const MIN: i32 = 2;
pub const MAX: i32 = 109574;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Civ {
    pub y: i32,
    pub m: i32,
    pub d: i32,
}
pub fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn dim(y: i32, m: i32) -> i32 {
    match m {
        2 => 28 + leap(y) as i32,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// Days since 1970-01-01.
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
pub fn civil_from_days(z: i64) -> Civ {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    Civ { y: y as i32, m: m as i32, d: d as i32 }
}
pub fn ser(y: i32, m: i32, d: i32) -> i32 {
    (days_from_civil(y as i64, m as i64, d as i64) + 25569) as i32
}
pub fn civ(s: i32) -> Civ {
    civil_from_days(s as i64 - 25569)
}
/// 0 = Saturday, 1 = Sunday, ... 6 = Friday (serial 2, 1900-01-01, is a Monday)
pub fn wd(s: i32) -> i32 {
    s.rem_euclid(7)
}
pub fn eom(s: i32) -> i32 {
    let c = civ(s);
    ser(c.y, c.m, dim(c.y, c.m))
}
pub fn is_eom(s: i32) -> bool {
    eom(s) == s
}
pub fn add_months(s: i32, n: i32) -> i32 {
    let c = civ(s);
    let t = c.y * 12 + (c.m - 1) + n;
    let (y, m) = (t.div_euclid(12), t.rem_euclid(12) + 1);
    ser(y, m, c.d.min(dim(y, m)))
}
pub fn dt(s: i32) -> Date {
    Date::from_serial(s)
}
pub fn iso(s: i32) -> String {
    if s < -200000 || s > 400000 {
        return format!("#{s}");
    }
    let c = civ(s);
    format!("{:04}-{:02}-{:02}", c.y, c.m, c.d)
}
/// A source of choices: the run's recorded choices (Ctx) or a local generator derived from one of
/// them (Rng), so that an operation's parameters can be reproduced anywhere from one number.
pub trait Draw {
    fn below(&mut self, n: u64) -> u64;
    fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.idx(xs.len())]
    }
    /// Below `n`, and now and then well beyond: what only shows in long histories and large objects.
    fn tail(&mut self, n: usize) -> usize {
        if self.chance(1, 16) { n + self.idx(4 * n) } else { self.idx(n) }
    }
    fn real(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * (self.below(1 << 30) as f64 / (1u64 << 30) as f64)
    }
}
impl Draw for simcore::Ctx {
    fn below(&mut self, n: u64) -> u64 {
        simcore::Ctx::below(self, n)
    }
}
impl Draw for simcore::rng::Rng {
    fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
}

/// A date inside [lo, hi], biased to month ends, mid-months, year ends and leap days.
pub fn any_date<D: Draw>(c: &mut D, lo: i32, hi: i32) -> i32 {
    let s = c.range(lo as i64, hi as i64) as i32;
    let v = civ(s);
    let t = match c.below(8) {
        0 | 1 | 2 | 3 => s,
        4 => eom(s) + c.range(-3, 3) as i32,
        5 => ser(v.y, v.m, 15) + c.range(-2, 3) as i32,
        6 => ser(v.y, 12, 31) + c.range(-4, 4) as i32,
        _ => ser(v.y, 2, 28) + c.range(-2, 3) as i32,
    };
    t.clamp(lo, hi)
}
