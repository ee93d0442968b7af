//! C24: registers of periods and arrays worked on in place and by value, with steps that have no exact
//! answer, restarts from the log of operations, and a tenor-keyed book under changing hash seeds.
use crate::model::*;
use crate::ops::UNITS;
use rust_quantlib::datetime::frequency::Frequency;
use rust_quantlib::datetime::months::Month;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::weekday::Weekday;
use rust_quantlib::datetime::timeunit::TimeUnit as U;
use rust_quantlib::maths::array::Array;
use simcore::{check, ev, Ctx, Res};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};

/// What a period stands for: months or days, exactly.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Span {
    Months(i64),
    Days(i64),
}
use Span::*;
impl Span {
    fn of(n: i64, u: U) -> Span {
        match u {
            U::Days => Days(n),
            U::Weeks => Days(7 * n),
            U::Months => Months(n),
            _ => Months(12 * n),
        }
    }
    fn n(self) -> i64 {
        match self {
            Days(n) | Months(n) => n,
        }
    }
    /// None where days meet months.
    fn plus(self, o: Span) -> Option<Span> {
        match (self, o) {
            (a, b) if b.n() == 0 => Some(a),
            (a, b) if a.n() == 0 => Some(b),
            (Days(a), Days(b)) => Some(Days(a + b)),
            (Months(a), Months(b)) => Some(Months(a + b)),
            _ => None,
        }
    }
    fn times(self, k: i64) -> Span {
        match self {
            Days(n) => Days(n * k),
            Months(n) => Months(n * k),
        }
    }
    fn same(self, o: Span) -> bool {
        self == o || self.n() == 0 && o.n() == 0
    }
    /// fewest and most days
    fn days(self) -> (i64, i64) {
        match self {
            Days(n) => (n, n),
            // any run of twelve months has 365 or 366 days
            Months(n) => {
                let k = n.abs();
                let (y, m) = (k / 12, k % 12);
                let (a, b) = (365 * y + 28 * m, 366 * y + 31 * m);
                if n < 0 { (-b, -a) } else { (a, b) }
            }
        }
    }
}
fn stands(p: &Period) -> Span {
    Span::of(p.length as i64, p.unit)
}

fn views(c: &mut Ctx, p: &Period, want: Span, what: &str) -> Res {
    check!(stands(p).same(want), "period", "{what}: {p:?} is not {want:?}");
    let n = lib!(c, p.normalised());
    check!(stands(&n).same(want), "normalised", "{what}: {p:?} normalised is {n:?}");
    check!(lib!(c, n == *p), "normalised", "{what}: {p:?} is not equal to itself normalised, {n:?}");
    // the shortest way to say it
    let short = match want {
        Days(0) | Months(0) => n.length == 0 && n.unit == U::Days,
        Days(k) => (n.unit == U::Weeks) == (k % 7 == 0),
        Months(k) => (n.unit == U::Years) == (k % 12 == 0),
    };
    check!(short, "normalised", "{what}: {p:?} normalised is {n:?}");
    let v = [c.catch(|| p.years()), c.catch(|| p.months()), c.catch(|| p.weeks()), c.catch(|| p.days())];
    for (i, g) in v.into_iter().enumerate() {
        let w = match (want, i) {
            (s, _) if s.n() == 0 => Some(0.0),
            (Months(k), 0) => Some(k as f64 / 12.0),
            (Months(k), 1) => Some(k as f64),
            (Days(k), 2) => Some(k as f64 / 7.0),
            (Days(k), 3) => Some(k as f64),
            _ => None,
        };
        let name = ["years", "months", "weeks", "days"][i];
        match (g, w) {
            (Ok(g), Some(w)) => check!((g - w).abs() <= 1e-12 * w.abs(), "length", "{what}: {p:?} is {g} {name}, expected {w}"),
            (Err(_), None) => {}
            (g, w) => simcore::fail!("length", "{what}: {p:?} in {name} is {g:?}, expected {w:?}"),
        }
    }
    // as often as it fits, forwards or backwards
    let k = p.length.abs();
    let often = match p.unit {
        U::Years if k == 0 => Some(Frequency::Once),
        _ if k == 0 => Some(Frequency::NoFrequency),
        U::Days => (k == 1).then_some(Frequency::Daily),
        U::Weeks => [(1, Frequency::Weekly), (2, Frequency::Biweekly), (4, Frequency::EveryFourthWeek)].into_iter().find(|x| x.0 == k).map(|x| x.1),
        U::Months => (k <= 12 && 12 % k == 0).then(|| Frequency::from(12 / k)),
        _ => (k == 1).then_some(Frequency::Annual),
    };
    let f = lib!(c, p.frequency());
    check!(f == often.unwrap_or(Frequency::OtherFrequency), "frequency", "{what}: {p:?} is of frequency {f:?}, expected {often:?}");
    let (lo, hi) = lib!(c, p.days_min_max());
    let (a, b) = want.days();
    let (lo, hi) = (lo.min(hi) as i64, lo.max(hi) as i64);
    check!(lo <= a && b <= hi, "length", "{what}: {p:?} has {lo} to {hi} days, expected {a} to {b}");
    Ok(())
}

fn compare(c: &mut Ctx, p: &Period, q: &Period) -> Res {
    let (a, b) = (stands(p), stands(q));
    let (lt, gt, eq) = lib!(c, (p < q, p > q, p == q));
    check!(lt as u8 + gt as u8 + eq as u8 == 1, "order", "{p:?} against {q:?}: less {lt}, greater {gt}, equal {eq}");
    let back = lib!(c, q.partial_cmp(p));
    let there = lib!(c, p.partial_cmp(q));
    check!(there.map(|o| o.reverse()) == back, "order", "{p:?} against {q:?} is {there:?}, the other way {back:?}");
    let want = match (a, b) {
        (a, b) if a.same(b) => Some(Ordering::Equal),
        (Days(x), Days(y)) | (Months(x), Months(y)) => Some(x.cmp(&y)),
        (a, b) if a.n() == 0 || b.n() == 0 => Some(a.n().cmp(&b.n())),
        // decided only where the fewest days of one exceed the most of the other
        (a, b) => {
            let ((a0, a1), (b0, b1)) = (minmax(p, a), minmax(q, b));
            if a1 < b0 { Some(Ordering::Less) } else if a0 > b1 { Some(Ordering::Greater) } else { None }
        }
    };
    match want {
        Some(w) => {
            let got = if lt { Ordering::Less } else if gt { Ordering::Greater } else { Ordering::Equal };
            check!(got == w, "order", "{p:?} against {q:?} is {got:?}, they stand for {a:?} and {b:?}");
        }
        None => {
            check!(!eq, "order", "{p:?} and {q:?} are equal, they stand for {a:?} and {b:?}");
            c.probe("undecided");
        }
    }
    Ok(())
}
/// Fewest and most days, as a month counts 28 to 31 and a year 365 or 366.
fn minmax(p: &Period, s: Span) -> (i64, i64) {
    let n = p.length as i64;
    let (a, b) = match p.unit {
        U::Months => (28 * n, 31 * n),
        U::Years => (365 * n, 366 * n),
        _ => (s.n(), s.n()),
    };
    (a.min(b), a.max(b))
}
fn same_bits(a: &Array, w: &[f64]) -> bool {
    a.size() == w.len() && (0..w.len()).all(|i| a[i] == w[i] || a[i].is_nan() && w[i].is_nan())
}
fn copy(a: &Array) -> Array {
    Array::new(a.data.clone())
}

#[derive(Clone, Copy)]
enum Op {
    Set(usize, i32, U),
    Add(usize, usize),
    Sub(usize, usize),
    Div(usize, i32),
    DivNew(usize, i32),
    Mul(usize, i32),
    Neg(usize),
    Normalise(usize),
    Freq(usize, Frequency),
}
const FREQS: [(Frequency, Option<Span>); 12] = [
    (Frequency::NoFrequency, Some(Days(0))),
    (Frequency::Once, Some(Months(0))),
    (Frequency::Annual, Some(Months(12))),
    (Frequency::Semiannual, Some(Months(6))),
    (Frequency::EveryFourthMonth, Some(Months(4))),
    (Frequency::Quarterly, Some(Months(3))),
    (Frequency::Bimonthly, Some(Months(2))),
    (Frequency::Monthly, Some(Months(1))),
    (Frequency::EveryFourthWeek, Some(Days(28))),
    (Frequency::Biweekly, Some(Days(14))),
    (Frequency::Weekly, Some(Days(7))),
    (Frequency::Daily, Some(Days(1))),
];
fn step(p: &mut [Period], op: Op) {
    match op {
        Op::Set(i, n, u) => p[i] = Period::new(n, u),
        Op::Add(i, j) => {
            let q = p[j];
            p[i] += q
        }
        Op::Sub(i, j) => {
            let q = p[j];
            p[i] -= q
        }
        Op::Div(i, n) => p[i] /= n,
        Op::DivNew(i, n) => p[i] = p[i] / n,
        Op::Mul(i, n) => p[i] = p[i] * n,
        Op::Neg(i) => p[i] = -p[i],
        Op::Normalise(i) => p[i].normalise(),
        Op::Freq(i, f) => p[i] = Period::from(f),
    }
}

pub fn run(c: &mut Ctx) -> Res {
    let f_crash = c.chance(1, 2);
    let big = c.chance(1, 4);
    let draw = |c: &mut Ctx| {
        let n = match c.below(4) {
            0 => c.pick(&[0, 1, 12, 7, 24, 14, 6, 3, 52, 365, -12, -7, -1]),
            _ => {
                let lo = if c.chance(1, 3) { -40 } else { 0 };
                c.range(lo, if big { 900 } else { 40 })
            }
        };
        (n as i32, c.pick(&UNITS))
    };
    const N: usize = 4;
    let mut p = vec![Period::new(0, U::Days); N];
    let mut log: Vec<Op> = vec![];
    let mut tenors: HashMap<Period, u32> = HashMap::new();
    let mut tenors_ref: BTreeMap<(bool, i64), u32> = BTreeMap::new();
    let mut arrays: Vec<(Array, Vec<f64>)> = (0..3)
        .map(|_| {
            let n = if c.chance(1, 16) { c.pick(&[64usize, 65, 130, 257]) } else { c.pick(&[1usize, 2, 3, 4, 4, 5, 8, 9, 17]) };
            let v: Vec<f64> = (0..n).map(|_| c.real(-5.0, 5.0)).collect();
            (Array::new(v.clone()), v)
        })
        .collect();
    let steps = 6 + c.tail(if c.thorough { 60 } else { 24 });
    for _ in 0..steps {
        let (i, j) = (c.idx(N), c.idx(N));
        match c.below(10) {
            0..=4 => {
                let op = match c.below(12) {
                    0 | 1 | 2 => {
                        let (n, u) = draw(c);
                        Op::Set(i, n, u)
                    }
                    3 | 4 => Op::Add(i, j),
                    5 => Op::Sub(i, j),
                    6 => Op::Div(i, c.pick(&[2, 3, 4, 6, 7, 12, 1, 5, -1, -2, 0])),
                    7 => Op::DivNew(i, c.pick(&[2, 3, 4, 6, 7, 12, 1, 5, -1, -3, 0])),
                    8 => Op::Mul(i, c.pick(&[2, 3, 12, 7, 0, -1, -2, 4])),
                    9 => Op::Neg(i),
                    10 => Op::Normalise(i),
                    _ => Op::Freq(i, FREQS[c.idx(12)].0),
                };
                let (a, b) = (stands(&p[i]), stands(&p[j]));
                let want = match op {
                    Op::Set(_, n, u) => Some(Span::of(n as i64, u)),
                    Op::Add(..) => a.plus(b),
                    Op::Sub(..) => a.plus(b.times(-1)),
                    Op::Div(_, 0) | Op::DivNew(_, 0) => None,
                    Op::Div(_, n) | Op::DivNew(_, n) => match a {
                        Days(x) if x % n as i64 == 0 => Some(Days(x / n as i64)),
                        Months(x) if x % n as i64 == 0 => Some(Months(x / n as i64)),
                        _ => None,
                    },
                    Op::Mul(_, n) => Some(a.times(n as i64)),
                    Op::Neg(_) => Some(a.times(-1)),
                    Op::Normalise(_) => Some(a),
                    Op::Freq(_, f) => FREQS.iter().find(|x| x.0 == f).unwrap().1,
                };
                if want.map_or(false, |w| w.n().abs() > 40_000) {
                    continue; // nobody's tenor
                }
                let before = p.clone();
                let r = c.catch(|| step(&mut p, op));
                let what = format!("{:?} with {:?}", before[i], before[j]);
                match (want, r) {
                    (Some(w), Ok(())) => {
                        views(c, &p[i], w, &what)?;
                        if let Op::Freq(_, f) = op {
                            let back = lib!(c, p[i].frequency());
                            check!(back == f, "frequency", "{f:?} is a period of {:?}, which is of frequency {back:?}", p[i]);
                        }
                        if let (Op::Div(..) | Op::DivNew(..), true) = (op, before[i].length != 0) {
                            // an even division keeps the units
                            let k = if let Op::Div(_, n) | Op::DivNew(_, n) = op { n } else { 1 };
                            check!(before[i].length % k != 0 || p[i].unit == before[i].unit, "units", "{what} divided by {k} is {:?}", p[i]);
                        }
                        log.push(op);
                        ev!(c, "{i}: {:?}", p[i]);
                    }
                    (None, Err(_)) => {
                        c.fault("inexact-step-refused");
                    }
                    (Some(w), Err(m)) => simcore::fail!("refused", "{what} gives {w:?}, but was refused: {m}"),
                    (None, Ok(())) => simcore::fail!("inexact", "{what} has no exact answer and gave {:?}", p[i]),
                }
                for k in 0..N {
                    if k != i || want.is_none() {
                        check!(p[k].length == before[k].length && p[k].unit == before[k].unit, "moved", "{:?} became {:?} when register {i} was worked on", before[k], p[k]);
                    }
                }
            }
            5 => compare(c, &p[i].clone(), &p[j].clone())?,
            6 => {
                // a book keyed by tenor: equal tenors are one entry
                let key = p[i];
                let s = stands(&key);
                let k = (matches!(s, Months(_)) && s.n() != 0, s.n());
                let (g, w) = (*lib!(c, tenors.entry(key).and_modify(|x| *x += 1).or_insert(1)), *tenors_ref.entry(k).and_modify(|x| *x += 1).or_insert(1));
                check!(g == w, "identity", "tenor {key:?} was booked {w} times, its entry says {g}");
                check!(tenors.len() == tenors_ref.len(), "identity", "{} entries for {} tenors", tenors.len(), tenors_ref.len());
                // a tenor moves a day as far as any equal one
                let d = any_date(c, ser(1990, 1, 1), ser(2100, 1, 1));
                let n = lib!(c, key.normalised());
                let (x, y) = (c.catch(|| dt(d) + key), c.catch(|| dt(d) + n));
                if let (Ok(x), Ok(y)) = (x, y) {
                    check!(x == y, "identity", "{} moves to {x:?} by {key:?} and to {y:?} by {n:?}", iso(d));
                }
            }
            7 if f_crash => {
                // rebuilt from the log of operations
                c.fault("rebuild-from-log");
                let mut q = vec![Period::new(0, U::Days); N];
                for &op in &log {
                    lib!(c, step(&mut q, op));
                }
                check!((0..N).all(|k| q[k].length == p[k].length && q[k].unit == p[k].unit), "restart", "rebuilt from the log the periods are {q:?}, they were {p:?}");
                p = q;
            }
            8 if c.chance(1, 4) => {
                let (n, u) = (c.range(-30, 30) as i32, c.pick(&[U::Hours, U::Minutes, U::Seconds, U::Milliseconds, U::Microseconds]));
                code_step(c, &mut p[i], Period::new(n, u))?
            }
            _ => array_step(c, &mut arrays)?,
        }
        c.sig(p.iter().fold(0, |m, x| simcore::rng::mix(m ^ (x.unit as u64) << 32 ^ (x.length.signum() + 1) as u64)));
    }
    c.nontrivial = true;
    Ok(())
}

/// Codes as they come off a feed, and units no date knows: the ones that mean nothing are refused.
fn code_step(c: &mut Ctx, p: &mut Period, short: Period) -> Res {
    let n = if c.chance(1, 2) { c.range(-1, 14) } else { c.range(-400, 1000) } as i32;
    let known = FREQS.iter().map(|x| x.0).find(|f| *f as i32 == n && n > 0);
    let f = c.catch(|| Frequency::from(n));
    match (f, known) {
        (Ok(f), Some(w)) => check!(f == w && i32::from(f) == n, "code", "frequency {n} is {f:?}, expected {w:?}"),
        (Err(_), None) => c.fault("garbled-code"),
        (f, w) => simcore::fail!("code", "frequency {n} is {f:?}, expected {w:?}"),
    }
    let k = if c.chance(1, 2) { n.rem_euclid(20) - 3 } else { n };
    const MONTHS: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
    let m = c.catch(|| Month::from(k));
    match m {
        Ok(m) => check!((1..=12).contains(&k) && format!("{m:?}") == MONTHS[k as usize - 1] && i32::from(m) == k && u32::from(m) == k as u32 && usize::from(m) == k as usize, "code", "month {k} is {m:?}"),
        Err(e) => check!(!(1..=12).contains(&k), "code", "month {k} was refused: {e}"),
    }
    const DAYS: [&str; 8] = ["Saturday", "Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"];
    let w = c.catch(|| Weekday::from(k));
    match w {
        Ok(w) => check!((0..=7).contains(&k) && format!("{w:?}") == DAYS[k as usize] && i32::from(w).rem_euclid(7) == k % 7, "code", "weekday {k} is {w:?}"),
        Err(e) => check!(!(0..=7).contains(&k), "code", "weekday {k} was refused: {e}"),
    }
    // less than a day: no tenor, and nothing a tenor can be worked out with
    let was = *p;
    if was.length != 0 && short.length != 0 {
        c.fault("less-than-a-day");
        let r = [
            c.catch(|| *p += short), c.catch(|| *p -= short),
            c.catch(|| drop(short.days())), c.catch(|| drop(short.weeks())), c.catch(|| drop(short.months())), c.catch(|| drop(short.years())),
            c.catch(|| drop(short.normalised())), c.catch(|| drop(short.frequency())), c.catch(|| drop(short.days_min_max())),
            c.catch(|| drop(short < was)), c.catch(|| { let mut q = short; q += was }),
        ];
        if let Some(i) = r.iter().position(|x| x.is_ok()) {
            simcore::fail!("less-than-a-day", "step {i} with {was:?} and {short:?} has an answer");
        }
        check!(p.length == was.length && p.unit == was.unit, "moved", "{was:?} became {p:?} when {short:?} was refused");
    }
    Ok(())
}

fn array_step(c: &mut Ctx, v: &mut [(Array, Vec<f64>)]) -> Res {
    let (i, j) = (c.idx(3), c.idx(3));
    let (a, b) = (v[i].1.clone(), v[j].1.clone());
    let k = c.real(-3.0, 3.0);
    let (la, lb) = (copy(&v[i].0), copy(&v[j].0));
    let zip = |f: fn(f64, f64) -> f64| a.iter().zip(&b).map(|(x, y)| f(*x, *y)).collect::<Vec<f64>>();
    let map = |f: &dyn Fn(f64) -> f64| a.iter().map(|x| f(*x)).collect::<Vec<f64>>();
    let which = c.below(20);
    let two = matches!(which, 0..=3 | 16);
    let e = std::f64::consts::E;
    let (name, want): (&str, Vec<f64>) = match which {
        0 => ("sum", zip(|x, y| x + y)),
        1 => ("difference", zip(|x, y| x - y)),
        2 => ("product", zip(|x, y| x * y)),
        3 => ("quotient", zip(|x, y| x / y)),
        4 => ("scalar sum", map(&|x| x + k)),
        5 => ("scalar difference", map(&|x| x - k)),
        6 => ("scalar product", map(&|x| x * k)),
        7 => ("scalar quotient", map(&|x| x / k)),
        8 => ("negation", map(&|x| -x)),
        9 => ("abs", map(&|x| x.abs())),
        10 => ("sqrt", map(&|x| x.sqrt())),
        11 => ("log", map(&|x| x.log(e))),
        12 => ("exp", map(&|x| x.exp())),
        13 => ("pow", map(&|x| x.powf(k))),
        14 | 15 | 17 => {
            // an element written in place
            let at = c.idx(a.len() + 1);
            // by pointer: called by name, indexing reports the caller's place in the source as its own
            let at_mut: fn(&mut Array, usize) -> &mut f64 = std::ops::IndexMut::index_mut;
            let r = c.catch(|| *std::hint::black_box(at_mut)(&mut v[i].0, at) = k);
            check!(r.is_ok() == (at < a.len()), "array", "element {at} of {} written: {}", a.len(), r.is_ok());
            if r.is_ok() {
                v[i].1[at] = k;
            } else {
                c.fault("element-refused");
            }
            check!(same_bits(&v[i].0, &v[i].1), "array", "after writing element {at} the array is {:?}, expected {:?}", v[i].0, v[i].1);
            return Ok(());
        }
        16 => {
            let r = c.catch(|| la.dot_product(&lb));
            let w: f64 = a.iter().zip(&b).map(|(x, y)| x * y).sum();
            check!(r.is_ok() == (a.len() == b.len()), "array", "dot product of sizes {} and {}: {r:?}", a.len(), b.len());
            if let Ok(g) = r {
                check!((g - w).abs() <= 1e-12 * (1.0 + a.iter().map(|x| x.abs()).sum::<f64>() * b.iter().map(|x| x.abs()).sum::<f64>()) || !w.is_finite() , "array", "dot product {g}, expected {w}");
                let n = lib!(c, la.norm2());
                let wn = a.iter().map(|x| x * x).sum::<f64>().sqrt();
                check!((n - wn).abs() <= 1e-12 * wn || !wn.is_finite(), "array", "norm {n}, expected {wn}");
            }
            return Ok(());
        }
        18 if i != j => {
            let (l, r) = v.split_at_mut(i.max(j));
            let (x, y) = (&mut l[i.min(j)], &mut r[0]);
            lib!(c, x.0.swap(&mut y.0));
            std::mem::swap(&mut x.1, &mut y.1);
            for z in [&*x, &*y] {
                check!(same_bits(&z.0, &z.1), "array", "after a swap the array is {:?}, expected {:?}", z.0, z.1);
            }
            return Ok(());
        }
        _ => {
            let n = if c.chance(1, 12) { c.pick(&[16usize, 33, 64, 66, 300]) } else { c.pick(&[0usize, 1, 2, 3, 4, 5, 8, 11]) };
            let x: Vec<f64> = (0..n).map(|_| c.real(-5.0, 5.0)).collect();
            v[i] = (Array::new(x.clone()), x);
            check!(v[i].0.size() == n && v[i].0.empty() == (n == 0), "array", "an array of {n} has size {}", v[i].0.size());
            return Ok(());
        }
    };
    let r = c.catch(|| match which {
        0 => la + lb,
        1 => la - lb,
        2 => la * lb,
        3 => la / lb,
        4 => la + k,
        5 => la - k,
        6 => la * k,
        7 => la / k,
        8 => -la,
        9 => la.abs(),
        10 => la.sqrt(),
        11 => la.log(),
        12 => la.exp(),
        _ => la.pow(k),
    });
    let ok = !two || a.len() == b.len();
    match r {
        Ok(g) => {
            check!(ok, "array", "{name} of sizes {} and {} was accepted", a.len(), b.len());
            let close = g.size() == want.len()
                && (0..want.len()).all(|i| g[i] == want[i] || (g[i].is_nan() && want[i].is_nan()) || (g[i] - want[i]).abs() <= 1e-12 * want[i].abs());
            check!(close, "array", "{name} of {a:?} (and {b:?}, {k}) is {g:?}, expected {want:?}");
            // kept within reach of plain numbers
            if g.data.iter().all(|x| x.is_finite() && x.abs() < 1e6) {
                let d = g.data.clone();
                v[i] = (g, d);
            }
            c.probe("array-operation");
        }
        Err(m) => {
            check!(!ok, "refused", "{name} of {a:?} and {b:?} was refused: {m}");
            c.fault("size-mismatch-refused");
        }
    }
    for (g, w) in v.iter() {
        check!(same_bits(g, w), "array", "an array left alone is {g:?}, expected {w:?}");
    }
    Ok(())
}
