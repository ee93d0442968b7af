//! C15: a journal keeps the printed form of the library's objects on a medium that fills up, tears
//! writes and fails for a moment. What is printed is complete or reported as failed, never silently
//! short, and says what the object says.
use crate::gen::*;
use crate::leg::*;
use crate::model::*;
use crate::ops::{currency, UNITS};
use crate::sch::*;
use rust_quantlib::cashflows::fixedratecoupon::FixedRateCoupon;
use rust_quantlib::currencies::money::Money;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::timeunit::TimeUnit as U;
use rust_quantlib::instruments::fixedratebond::FixedRateBond;
use rust_quantlib::instruments::zerocouponbond::ZeroCouponBond;
use rust_quantlib::maths::array::Array;
use simcore::{check, ev, Ctx, Res};
use std::fmt::{self, Debug, Write};

/// A medium of limited room. Torn: keeps what fits of the failing write; transient: drops exactly one write.
struct Medium {
    text: String,
    room: usize,
    torn: bool,
    transient: bool,
    failed: bool,
    after: bool,
}
impl Medium {
    fn new(room: usize, torn: bool, transient: bool) -> Self {
        Medium { text: String::new(), room, torn, transient, failed: false, after: false }
    }
}
impl Write for Medium {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after = true;
            if self.transient {
                self.text.push_str(s);
                return Ok(());
            }
            return Err(fmt::Error);
        }
        if self.text.len() + s.len() > self.room {
            self.failed = true;
            if self.torn {
                let mut k = self.room - self.text.len();
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                self.text.push_str(&s[..k]);
            }
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

fn pad(y: i32, m: i32, d: i32) -> String {
    format!("{y}-{m:02}-{d:02}")
}
fn day(s: i32) -> String {
    let v = civ(s);
    pad(v.y, v.m, v.d)
}

/// An object and, where the printed form is part of what it promises, that form.
fn object(c: &mut Ctx) -> (Box<dyn Debug>, Option<String>, &'static str) {
    let s = any_date(c, ser(1930, 1, 1), ser(2150, 1, 1));
    match c.below(13) {
        0 => (Box::new(dt(s)), Some(format!("{}T00:00:00+00:00", day(s))), "date"),
        1 => {
            let n = if c.chance(1, 2) { c.range(-40, 40) as i32 } else { c.pick(&[52, 104, -52, 53, 60, 365, 366, 84, 120, -365, 24, 36, 999, 1000, 12_345, i32::MAX, i32::MIN, 3600, -1461, 28, 91, 182]) };
            let u = c.idx(9);
            let unit = [UNITS[0], UNITS[1], UNITS[2], UNITS[3], U::Hours, U::Minutes, U::Seconds, U::Milliseconds, U::Microseconds][u];
            (Box::new(Period::new(n, unit)), Some(format!("{n}{}", ["D", "W", "M", "Y", "H", "m", "s", "ms", "us"][u])), "period")
        }
        2 | 3 => {
            let sp = Spec::draw(c, ser(1930, 1, 1), ser(2150, 1, 1), 1);
            match c.catch(|| sp.lib(sp.effective)) {
                Ok(l) => {
                    let rows: String = l.dates().iter().map(|d| format!("\t{},\n", day(d.serial_number()))).collect();
                    (Box::new(l), Some(format!("Schedule[\n{rows}]\n")), "schedule")
                }
                Err(_) => (Box::new(dt(s)), None, "date"),
            }
        }
        4 => {
            let k = c.idx(crate::cal::N_MARKETS);
            let m = s + c.range(0, 500) as i32;
            let z = ZeroCouponBond::new(c.range(0, 3) as i32, &crate::cal::market(k), 100.0, dt(m));
            (Box::new(z), Some(format!("ZCB/{}", day(m))), "zero-coupon bond")
        }
        5 => {
            let sp = Spec::draw(c, ser(1930, 1, 1), ser(2150, 1, 1), 0);
            match c.catch(|| {
                let l = sp.lib(sp.effective);
                let last = l.dates().last().unwrap().serial_number();
                (FixedRateBond::new(2, 100.0, l, vec![0.05], dc(0)), last)
            }) {
                Ok((b, last)) => (Box::new(b), Some(format!("FRB/{}", day(last))), "fixed-rate bond"),
                Err(_) => (Box::new(dt(s)), None, "date"),
            }
        }
        6 => {
            let d = dc(c.idx(N_DC));
            let n = d.name();
            (Box::new(d), Some(n), "day counter")
        }
        7 => (Box::new(Rate::draw(c, false).lib()), None, "rate"),
        8 => {
            let ls = LegSpec::draw(c, ser(1930, 1, 1), ser(2150, 1, 1), 0);
            let v: Vec<FixedRateCoupon> = c.catch(|| ls.lib(ls.sp.effective)).unwrap_or_default();
            (Box::new(v), None, "leg")
        }
        9 => {
            // every element is in the text, in order
            let n = if c.chance(1, 2) { c.idx(6) } else { c.tail(700) as usize };
            let (a, b) = (c.real(-3.0, 3.0), c.real(-40.0, 40.0));
            let v: Vec<f64> = (0..n).map(|i| i as f64 * a + b).collect();
            let all = v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join("|");
            (Box::new(Array::new(v)), Some(all), "array")
        }
        12 => {
            // a long schedule
            let sp = Spec::draw(c, ser(1930, 1, 1), ser(2100, 1, 1), 0);
            let unit = c.pick(&[U::Days, U::Weeks, U::Months]);
            let n = c.range(10, 480) as i32;
            let sp = Spec { unit, len: 1, term: crate::sch::shift(sp.effective, n, unit, false), first: 0, ntl: 0, ..sp };
            match c.catch(|| sp.lib(sp.effective)) {
                Ok(l) => {
                    let rows: String = l.dates().iter().map(|d| format!("\t{},\n", day(d.serial_number()))).collect();
                    (Box::new(l), Some(format!("Schedule[\n{rows}]\n")), "schedule")
                }
                Err(_) => (Box::new(dt(s)), None, "date"),
            }
        }
        10 => {
            let k = c.idx(17);
            let v = c.real(-100.0, 1e6);
            (Box::new(Money::new(std::rc::Rc::from(currency(k)), v)), None, "money")
        }
        _ => (Box::new(ctx_at(s)), None, "pricing context"),
    }
}

pub fn run(c: &mut Ctx) -> Res {
    let n = 1 + c.idx(4);
    let objs: Vec<_> = (0..n).map(|_| object(c)).collect();
    let steps = 3 + c.tail(12);
    for _ in 0..steps {
        let (o, w, name) = &objs[c.idx(n)];
        let alt = c.chance(1, 4);
        let print = |m: &mut Medium| if alt { write!(m, "{o:#?}") } else { write!(m, "{o:?}") };
        let mut whole = Medium::new(usize::MAX, false, false);
        let r = lib!(c, print(&mut whole));
        check!(r.is_ok(), "refused", "printing a {name} on a healthy medium failed");
        let full = whole.text;
        if *name == "array" {
            let mut rest = &full[..];
            for e in w.as_deref().unwrap_or("").split('|') {
                match rest.find(e) {
                    Some(i) => rest = &rest[i + e.len()..],
                    None => simcore::fail!("wrong-text", "an array's element {e} is not where it belongs in {full:?}"),
                }
            }
        } else if let Some(w) = w {
            check!(&full == w, "wrong-text", "a {name} prints as {full:?}, it is {w:?}");
        }
        ev!(c, "{name} alt {alt}: {} bytes", full.len());
        let tries = 1 + c.below(3);
        for _ in 0..tries {
            if full.is_empty() {
                break;
            }
            let (room, torn, transient) = (c.idx(full.len()), c.chance(1, 2), c.chance(1, 2));
            c.fault(match (torn, transient) {
                (true, false) => "torn-write",
                (false, false) => "medium-full",
                (true, true) => "torn-write-then-healthy",
                (false, true) => "lost-write-then-healthy",
            });
            let mut m = Medium::new(room, torn, transient);
            let r = c.catch(|| print(&mut m));
            let r = match r {
                Ok(r) => r,
                Err(e) => simcore::fail!("panic", "printing a {name} on a failing medium panicked: {e}"),
            };
            check!(r.is_err(), "failure-hidden", "a {name} of {} bytes was printed on a medium that failed at byte {room}, and reported as written: {:?}", full.len(), m.text);
            check!(full.starts_with(&m.text), "hole", "a {name} printed on a failing medium left {:?}, not a beginning of {full:?}", m.text);
            check!(!torn || m.text.len() + 3 >= room, "short", "a {name}: {} of {room} bytes kept", m.text.len());
            c.sig(room as u64 ^ (full.len() as u64) << 20 ^ (torn as u64) << 40 ^ (transient as u64) << 41);
        }
        // and once more on a healthy medium
        let mut again = Medium::new(usize::MAX, false, false);
        let r = lib!(c, print(&mut again));
        check!(r.is_ok() && again.text == full, "changed", "a {name} printed {full:?} before failures and {:?} after", again.text);
    }
    c.nontrivial = true;
    Ok(())
}
