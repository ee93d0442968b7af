//! C23: a cash ledger kept in rounded amounts: postings that are duplicated, reversed and replayed, a log of
//! printed amounts that is torn and read back, rules that are replaced by finer and coarser ones.
use crate::model::Draw;
use rust_quantlib::currencies::currency::{Currency, CurrencyData};
use rust_quantlib::currencies::money::Money;
use rust_quantlib::currencies::{america::USDCurrency, europe::EURCurrency};
use rust_quantlib::maths::comparison;
use rust_quantlib::maths::rounding::Rounding;
use simcore::{check, ev, Ctx, Res};
use std::collections::HashSet;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    None,
    Up,
    Down,
    Closest,
    Ceiling,
    Floor,
}
use Kind::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Rule {
    kind: Kind,
    p: i32,
    digit: i32,
}
impl Rule {
    fn draw(c: &mut Ctx) -> Rule {
        Rule { kind: c.pick(&[Closest, Up, Down, Ceiling, Floor, None]), p: if c.chance(1, 3) { 2 } else { c.range(-2, 6) as i32 }, digit: if c.chance(1, 2) { 5 } else { c.range(1, 9) as i32 } }
    }
    fn lib(&self) -> Rounding {
        match self.kind {
            None => Rounding::none(),
            Up => Rounding::up(self.p, self.digit),
            Down => Rounding::down(self.p, self.digit),
            Closest => Rounding::closest(self.p, self.digit),
            Ceiling => Rounding::ceiling(self.p, self.digit),
            Floor => Rounding::floor(self.p, self.digit),
        }
    }
    /// The rule's choice between a whole number of units and the next, `above` past it: away from zero or not.
    fn away(&self, positive: bool, above: f64) -> bool {
        let past = above >= self.digit as f64 / 10.0;
        match self.kind {
            None => unreachable!(),
            Up => above > 0.0,
            Down => false,
            Closest => past,
            Ceiling => !positive && past,
            Floor => positive && past,
        }
    }
    /// How near `above` is to where the rule changes its mind (a whole number apart).
    fn edge(&self, above: f64) -> f64 {
        (above - self.digit as f64 / 10.0).abs()
    }
}
/// `n` times ten to the minus `k`, as the nearest number there is.
fn decimal(n: i64, k: i32) -> f64 {
    format!("{n}e{}", -k).parse().unwrap()
}
/// Two amounts that print alike: a whole number of tens or hundreds may miss it by a rounding error.
fn same(r: &Rule, a: f64, b: f64) -> bool {
    if r.p >= 0 { a == b } else { (a - b).abs() <= 1e-12 * b.abs() }
}
/// The units of a posting, in the rule's last decimal; two of them where it falls on the rule's edge.
fn units(r: &Rule, n: i64, k: i32) -> (i64, i64) {
    let a = n.abs();
    let (whole, above) = if k > r.p {
        let m = 10i64.pow((k - r.p) as u32);
        (a / m, (a % m) as f64 / m as f64)
    } else {
        (a * 10i64.pow((r.p - k) as u32), 0.0)
    };
    let s = n.signum();
    if above == 0.0 {
        return (n.signum() * whole, n.signum() * whole);
    }
    // an amount that is a number itself, and its scaling too, leaves no doubt
    let exact = r.p >= 0 && a % 5i64.pow(k as u32) == 0;
    if r.kind != Up && r.kind != Down && r.edge(above) < 1e-7 && !exact {
        let one = matches!(r.kind, Closest) || (r.kind == Ceiling && n < 0) || (r.kind == Floor && n > 0);
        return (s * whole, s * (whole + one as i64));
    }
    let w = s * (whole + r.away(n > 0, above) as i64);
    (w, w)
}
/// A currency with a rule of its own.
#[derive(Debug)]
struct Cur(CurrencyData);
impl Currency for Cur {
    fn data(&self) -> &CurrencyData {
        &self.0
    }
}

struct Post {
    n: i64,
    k: i32,
}
struct Book {
    rule: Rule,
    cur: Rc<dyn Currency>,
    /// What was posted, and the amounts as booked.
    posts: Vec<Post>,
    booked: Vec<Money>,
    log: Vec<String>,
    /// The booked amounts, in units of the last decimal.
    units: Vec<i64>,
}
fn open(rule: Rule) -> Rc<dyn Currency> {
    Rc::new(Cur(CurrencyData::new("Drawn".into(), "DRW".into(), 999, "d".into(), "".into(), 100, rule.lib(), Option::None, HashSet::new())))
}
/// Books one posting, and says in units what it was booked as.
fn book(c: &mut Ctx, rule: &Rule, cur: &Rc<dyn Currency>, n: i64, k: i32) -> Res<(Money, i64)> {
    let x = decimal(n, k);
    let r = lib!(c, cur.rounding().round(x));
    let m = Money::new(cur.clone(), r);
    if rule.kind == None {
        check!(r.to_bits() == x.to_bits(), "unrounded", "{x:?} is booked as {r:?} under no rounding");
        return Ok((m, 0));
    }
    let (u, v) = units(rule, n, k);
    let hit = [u, v].into_iter().find(|w| same(rule, r, decimal(*w, rule.p)));
    let Some(w) = hit else { simcore::fail!("rounded", "{n}e-{k} under {rule:?} is booked as {r:?}, which is not {:?}", decimal(u, rule.p)) };
    if u != v {
        c.probe("on-the-edge");
    } else if k <= rule.p {
        c.probe("already-rounded");
    }
    Ok((m, w))
}

/// Two amounts that came by different ways: alike up to some units of the last place, and not beyond twice that.
fn reconcile(c: &mut Ctx) -> Res {
    let n = c.pick(&[42usize, 42, 1, 3, 100, 1000]);
    let x = c.real(1.0, 2.0) * 2f64.powi(c.range(-60, 60) as i32) * c.pick(&[1.0, -1.0]);
    let ask = |x: f64, y: f64| {
        let both = comparison::close_n(x, y, n);
        if n == 42 {
            [both && comparison::close(x, y), comparison::close_enough(x, y)]
        } else {
            [both, both]
        }
    };
    // whole units of the last place, the amounts within one power of two
    let k = match c.below(4) {
        0 => n as u64 / 2,
        1 => 2 * n as u64 + 3,
        2 => c.below(6 * n as u64 + 4),
        _ => c.below(1 << 40),
    };
    let m = 1u64 << 52;
    let (bits, room) = (x.to_bits(), x.to_bits() % m);
    let y = f64::from_bits(if room + k < m { bits + k } else { bits - k.min(room) });
    let k = y.to_bits().abs_diff(bits);
    let ends = [x.abs(), y.abs()].map(|v| v / 2f64.powi(v.log2().floor() as i32));
    let (lo, hi) = (ends[0].min(ends[1]), ends[0].max(ends[1]));
    let lim = |v: f64| k as f64 <= n as f64 * v;
    // for some: of the larger; for all: of the smaller
    let want = [lim(lo), lim(if n == 42 { hi } else { lo })];
    for (a, b) in [(x, y), (y, x), (-x, -y)] {
        let g = lib!(c, ask(a, b));
        let sure = |i: usize| (k as f64 - n as f64 * if i == 1 && n == 42 { hi } else { lo }).abs() > 1e-6 * k as f64;
        for i in 0..2 {
            check!(!sure(i) || g[i] == want[i], "alike", "{a:e} and {b:e}, {k} units of the last place apart, are alike to {n}: {} (ε of {} of them)", g[i], ["both", "either"][i]);
        }
    }
    // nothing is like its opposite; what is next to nothing is like nothing only when it is so much smaller
    let tiny = (n as f64 * f64::EPSILON).powi(2);
    let z = tiny * c.pick(&[0.25, 0.9, 1.1, 4.0, 1e9]) * c.pick(&[1.0, -1.0]);
    let g = lib!(c, [ask(x, x), ask(x, -x), ask(z, 0.0), ask(0.0, z), ask(f64::NAN, x), ask(f64::INFINITY, f64::INFINITY)]);
    let w = [true, false, z.abs() < tiny, z.abs() < tiny, false, true];
    for i in 0..w.len() {
        check!(g[i] == [w[i]; 2], "alike", "{x:e} with itself, with its opposite, {z:e} with nothing (to {n}), no number with {x:e}, infinities: {g:?}");
    }
    c.probe("reconciled");
    Ok(())
}

pub fn run(c: &mut Ctx) -> Res {
    let mut b = match c.below(6) {
        0 => Book { rule: Rule { kind: Closest, p: 2, digit: 5 }, cur: Rc::new(EURCurrency::new()), posts: vec![], booked: vec![], log: vec![], units: vec![] },
        1 => Book { rule: Rule { kind: None, p: 0, digit: 5 }, cur: Rc::new(USDCurrency::new()), posts: vec![], booked: vec![], log: vec![], units: vec![] },
        _ => {
            let rule = Rule::draw(c);
            Book { rule, cur: open(rule), posts: vec![], booked: vec![], log: vec![], units: vec![] }
        }
    };
    ev!(c, "{:?}", b.rule);
    let (f_dup, f_torn, f_crash, f_bad) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 2), c.chance(1, 2));
    let steps = 3 + c.tail(if c.thorough { 60 } else { 20 });
    for _ in 0..steps {
        let rule = b.rule;
        match c.below(12) {
            8 if f_dup && !b.posts.is_empty() => {
                // delivered again: booked alike, and not twice
                c.fault("duplicate-delivery");
                let i = c.idx(b.posts.len());
                let (n, k) = (b.posts[i].n, b.posts[i].k);
                let (m, _) = book(c, &rule, &b.cur, n, k)?;
                check!(m.value.to_bits() == b.booked[i].value.to_bits(), "replay", "{n}e-{k} is booked as {:?}, it was {:?}", m.value, b.booked[i].value);
            }
            9 if f_crash && rule.kind != None => {
                // read back from the log, perhaps with its last record torn, and posted again
                c.fault("restart-from-log");
                let lost = if f_torn && !b.log.is_empty() && c.chance(1, 2) {
                    c.fault("torn-log");
                    1
                } else {
                    0
                };
                let keep = b.log.len() - lost;
                let cur = open(rule);
                for i in 0..keep {
                    let x: f64 = b.log[i].parse().unwrap();
                    let again = lib!(c, cur.rounding().round(x));
                    check!(same(&rule, again, b.booked[i].value) && same(&rule, x, again), "restart", "{} of the log is {again:?} when read back under {rule:?}; it was booked as {:?}", b.log[i], b.booked[i].value);
                }
                if lost == 1 {
                    let i = keep;
                    let (m, u) = book(c, &rule, &cur, b.posts[i].n, b.posts[i].k)?;
                    check!(m.value.to_bits() == b.booked[i].value.to_bits() && u == b.units[i], "replay", "posted again after the restart, {} is {:?}", b.log[i], m.value);
                }
                check!(cur.rounding() == b.cur.rounding() && cur.rounding() == rule.lib(), "rule", "the rule {rule:?} is not itself after a restart");
                b.cur = cur;
            }
            10 if rule.kind != None => {
                // the book is restated under another rule: a finer one changes nothing
                let mut to = Rule::draw(c);
                if to.kind == None || b.booked.is_empty() {
                    continue;
                }
                c.probe("restated");
                let same_rule = to == rule;
                check!((to.lib() == rule.lib()) == same_rule, "rule", "{to:?} and {rule:?} are the same: {}", !same_rule);
                if to.p < rule.p - 4 {
                    to.p = rule.p - 4;
                }
                let cur = open(to);
                for i in 0..b.booked.len() {
                    let (m, u) = book(c, &to, &cur, b.units[i], rule.p)?;
                    if to.p >= rule.p {
                        check!(same(&rule, m.value, b.booked[i].value), "finer", "{:?} under {rule:?} is {:?} under {to:?}", b.booked[i].value, m.value);
                    }
                    (b.booked[i], b.posts[i], b.units[i]) = (m, Post { n: b.units[i], k: rule.p }, u);
                    b.log[i] = format!("{:.*}", to.p.max(0) as usize, b.booked[i].value);
                }
                (b.rule, b.cur) = (to, cur);
            }
            11 if f_bad => {
                // what is no amount is not made into one
                c.fault("garbled-amount");
                let x = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                if let Ok(r) = c.catch(|| b.cur.rounding().round(x)) {
                    check!(!r.is_finite(), "garbled", "{x} is booked as {r} under {rule:?}");
                }
            }
            6 if c.chance(1, 3) => reconcile(c)?,
            7 => {
                // an amount computed, not typed
                let x = c.real(-1.0, 1.0) * c.pick(&[1.0, 100.0, 1e4, 1e5]) * (1.0 + c.real(0.0, 0.1) * c.range(1, 400) as f64 / 360.0);
                let r = lib!(c, b.cur.rounding().round(x));
                if rule.kind == None {
                    check!(r.to_bits() == x.to_bits(), "unrounded", "{x:?} is booked as {r:?} under no rounding");
                    continue;
                }
                let m = 10f64.powi(rule.p);
                let scaled = x.abs() * m;
                let (whole, above) = (scaled.floor(), scaled.fract());
                let sign = if x < 0.0 { -1.0 } else { 1.0 };
                let near = |v: f64| (r - sign * v / m).abs() <= 1e-11 * (1.0 + r.abs());
                let margin = f64::max(1e-6, 1.1e-14 * scaled);
                let edgy = above < margin || above > 1.0 - margin || rule.edge(above) < margin;
                let ok = if edgy { near(whole) || near(whole + 1.0) } else { near(whole + rule.away(x > 0.0, above) as i32 as f64) };
                check!(ok, "computed", "{x:?} under {rule:?} is {r:?}");
                check!((r - x).abs() * m <= 1.0 + margin, "unit", "{x:?} under {rule:?} is {r:?}, more than a unit away");
            }
            _ => {
                // one more posting; what has few decimals, or few past the rule's
                let k = if c.chance(1, 3) { c.range(0, 6) as i32 } else { (rule.p + c.range(-1, 4) as i32).clamp(0, 8) };
                let k = k.min(rule.p + 4).max(0);
                let k = if rule.p + 4 < 0 { 0 } else { k };
                let size = c.pick(&[9i64, 99, 999, 99999, 9999999]);
                let mut n = c.range(-size, size);
                let mut k = k;
                if c.chance(1, 6) {
                    // a tie that is no matter of representation: an odd number of halves of the last unit
                    k = (rule.p + 1).clamp(1, 7);
                    n = 5i64.pow(k as u32) * (2 * c.range(-size.min(99_999), size.min(99_999)) + 1);
                }
                let cur = b.cur.clone();
                let (m, u) = book(c, &rule, &cur, n, k)?;
                let (x, r) = (decimal(n, k), m.value);
                if rule.kind != None {
                    // reversed
                    let mirror = Rule { kind: match rule.kind { Ceiling => Floor, Floor => Ceiling, s => s }, ..rule };
                    let back = lib!(c, mirror.lib().round(-x));
                    check!(back == -r, "reversal", "{x:?} under {rule:?} is {r:?}, {:?} under {mirror:?} is {back:?}", -x);
                    // rounded already
                    let twice = lib!(c, b.cur.rounding().round(r));
                    check!(same(&rule, twice, r), "fixed-point", "{x:?} under {rule:?} is {r:?}, and that {twice:?}");
                    // in order with what was posted before
                    for (i, q) in b.posts.iter().enumerate().rev().take(4) {
                        let y = decimal(q.n, q.k);
                        let s = b.booked[i].value;
                        check!(!(y < x && s > r + 1e-9 || y > x && s < r - 1e-9), "order", "under {rule:?} {y:?} is {s:?} and {x:?} is {r:?}");
                    }
                }
                ev!(c, "{n}e-{k} booked as {r:?}");
                b.log.push(if rule.kind == None { format!("{r:?}") } else { format!("{:.*}", rule.p.max(0) as usize, r) });
                b.posts.push(Post { n, k });
                b.booked.push(m);
                b.units.push(u);
                c.nontrivial = true;
                c.sig(rule.kind as u64 | ((rule.p + 3) as u64) << 4 | (rule.digit as u64) << 8 | (k as u64) << 12 | ((n < 0) as u64) << 20 | ((n.unsigned_abs() % 100000).min(1024)) << 24);
            }
        }
        let rule = b.rule;
        if rule.kind != None && rule.p >= 0 && !b.booked.is_empty() {
            // the balance of rounded amounts, rounded to them, is the exact one
            let sum: f64 = b.booked.iter().map(|m| m.value).sum();
            let want = decimal(b.units.iter().sum(), rule.p);
            let bal = lib!(c, Rounding::closest(rule.p, 5).round(sum));
            check!(bal == want, "balance", "the balance {sum:?} is {bal:?} to {} decimals, the amounts booked add up to {want:?}", rule.p);
        }
    }
    Ok(())
}
