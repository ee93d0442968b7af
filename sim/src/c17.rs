//! C17: a credit desk quotes the standard contract on every trade date of a clock that ticks, jumps,
//! is set back and restarts.
use crate::cal::*;
use crate::gen::s0;
use crate::model::*;
use crate::sch::*;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::dategenerationrule::DateGenerationRule as R;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::timeunit::TimeUnit as U;
use rust_quantlib::instruments::creditdefaultswap::cds_maturity;
use simcore::{check, ev, Ctx, Res};

const RULES: [R; 3] = [R::CDS2015, R::CDS, R::OldCDS];
/// Standard maturity in months from the last roll date; None where the contract does not exist.
fn maturity(t: i32, months: i32, r: R) -> Option<i32> {
    if r == R::CDS2015 {
        // rolls on 20 March and 20 September
        let mut roll = prev20(t, R::CDS);
        let mut early = false;
        if civ(roll).m % 6 == 0 {
            roll = add_months(roll, -3);
            early = true;
        }
        if months == 0 && early {
            return None;
        }
        return Some(add_months(roll, months + 3));
    }
    Some(add_months(next20(t + 1, R::CDS), months))
}

pub fn run(c: &mut Ctx) -> Res {
    let rule = RULES[c.idx(3)];
    let (len, unit) = match c.below(3) {
        0 => (c.range(if rule == R::OldCDS { 1 } else { 0 }, 10) as i32, U::Years),
        1 => (5, U::Years),
        _ => (3 * c.range(if rule == R::OldCDS { 1 } else { 0 }, 20) as i32, U::Months),
    };
    let months = if unit == U::Years { 12 * len } else { len };
    let mut t = any_date(c, ser(1920, 1, 1), ser(2150, 1, 1));
    // the terms of the last date; the rules of 2009 and 2015 leave it alone whatever they are
    let tconv = if c.chance(1, 2) { B::Unadjusted } else { c.pick(&CONVS) };
    let market_ix = c.pick(&[1usize, 1, 2, 6]);
    let (f_jump, f_back, f_bad) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 2));
    let steps = 3 + c.tail(if c.thorough { 40 } else { 14 });
    let mut seen: Vec<(i32, i32)> = vec![];
    ev!(c, "{rule:?} tenor {len} {unit:?}, first trade date {}", iso(t));
    for _ in 0..steps {
        let before = t;
        let roll = next20(t + 1, R::CDS);
        t = match c.below(8) {
            0 => t + 1,
            1 => roll,
            2 => roll - 1,
            3 => roll + 1,
            4 if f_jump => {
                c.fault("clock-jump-forward");
                t + c.range(20, 3000) as i32
            }
            5 if f_back => {
                c.fault("clock-set-back");
                t - c.range(1, 400) as i32
            }
            6 => eom(t),
            _ => t + c.range(1, 60) as i32,
        }
        .clamp(ser(1915, 1, 1), ser(2160, 1, 1));
        c.sim_days((t - before).unsigned_abs() as u64);
        let tenor = Period::new(len, unit);
        let m = s0(lib!(c, cds_maturity(&dt(t), tenor, rule)));
        let w = maturity(t, months, rule);
        ev!(c, "traded {}: matures {}", iso(t), if m == 0 { "never".into() } else { iso(m) });
        check!(m == w.unwrap_or(0), "maturity", "{rule:?} {len} {unit:?} traded {} matures {}, the roll gives {}", iso(t), iso(m), iso(w.unwrap_or(0)));
        if m == 0 {
            c.probe("no-contract");
            continue;
        }
        check!(m > t && civ(m).d == 20 && civ(m).m % 3 == 0, "not-a-roll-date", "traded {} matures {}", iso(t), iso(m));
        for &(t1, m1) in &seen {
            check!((t1 <= t) == (m1 <= m) || m1 == m || t1 == t, "order", "traded {} matures {}, traded {} matures {}", iso(t1), iso(m1), iso(t), iso(m));
        }
        // constant between roll dates
        let g = s0(lib!(c, cds_maturity(&dt(t - 1), tenor, rule)));
        let v = civ(t);
        let rolls = v.d == 20 && if rule == R::CDS2015 { v.m == 3 || v.m == 9 } else { v.m % 3 == 0 };
        if g != 0 {
            check!((g != m) == rolls, "roll-day", "traded {} matures {}, the day after {}", iso(t - 1), iso(g), iso(m));
        }
        if rolls {
            c.probe("roll-day");
        }
        seen.push((t, m));
        // a longer tenor never matures earlier
        let longer = s0(lib!(c, cds_maturity(&dt(t), Period::new(months + 3, U::Months), rule)));
        check!(longer == add_months(m, 3), "tenor-order", "traded {}: {months} months mature {}, three more {}", iso(t), iso(m), iso(longer));
        // the premium schedule to that maturity
        let sp = Spec { closed: (0, 0),
            market: market_ix, edits: [(0, false); 3], n_edits: 0, effective: t, term: m, len: 3, unit: U::Months,
            conv: B::Following, tconv, rule, eom: false, first: 0, ntl: 0, told: c.below(1 << 24),
        };
        let k = RefCal::new(market_ix);
        if let Ok(Some((ds, reg))) = sp.reference(&k) {
            let s = lib!(c, sp.lib(t));
            let got: Vec<i32> = s.dates().iter().map(|d| d.serial_number()).collect();
            let show = |v: &[i32]| v.iter().map(|d| iso(*d)).collect::<Vec<_>>();
            check!(got == ds, "premium-dates", "{rule:?} traded {} to {}: premium dates {:?}, expected {:?}", iso(t), iso(m), show(&got), show(&ds));
            check!((1..got.len()).all(|i| s.is_regular(i) == reg[i - 1]), "premium-dates", "{rule:?} traded {}: regular periods differ from {reg:?}", iso(t));
            let ends = rule != R::OldCDS || tconv == B::Unadjusted;
            check!((!ends || *got.last().unwrap() == m) && got[0] <= t, "premium-dates", "{rule:?} traded {} to {}: premium dates run {} to {}", iso(t), iso(m), iso(got[0]), iso(*got.last().unwrap()));
            for d in &got[1..got.len() - 1] {
                // each inner date is a quarterly 20th moved to a business day
                check!(k.adjust(prev20(*d, R::CDS), B::Following).map_or(true, |x| x == *d), "premium-dates", "{rule:?} traded {}: {} is no quarterly 20th", iso(t), iso(*d));
            }
            c.probe("premium-schedule");
        }
        {
            // the roll date on or before the trade date, under any rule
            let r = c.pick(&[R::CDS2015, R::CDS, R::OldCDS, R::TwentiethIMM, R::Twentieth]);
            let g = lib!(c, rust_quantlib::datetime::schedule::previous_twentieth(&dt(t), r)).serial_number();
            check!(g == prev20(t, r), "roll-date", "{r:?}: the roll date on or before {} is {}", iso(t), iso(g));
        }
        if f_bad && c.chance(1, 3) {
            // a malformed order must be refused
            c.fault("malformed-order");
            let zero = if c.chance(1, 2) { U::Months } else { U::Years };
            let bad = match c.below(5) {
                0 => c.catch(|| cds_maturity(&dt(t), Period::new(3 * len + 1, U::Months), rule)),
                1 => c.catch(|| cds_maturity(&dt(t), Period::new(10, U::Days), rule)),
                2 => c.catch(|| cds_maturity(&dt(t), Period::new(5, U::Years), R::Backward)),
                3 => c.catch(|| cds_maturity(&dt(t), Period::new(0, zero), R::OldCDS)),
                _ => c.catch(|| cds_maturity(&dt(t), Period::new(-3 * (len + 1), U::Months), rule)),
            };
            check!(bad.is_err(), "accepted-malformed", "a malformed order traded {} matures {bad:?}", iso(t));
        }
        c.sig(civ(t).m as u64 ^ (civ(t).d as u64) << 4 ^ (RULES.iter().position(|r| *r == rule).unwrap() as u64) << 10 ^ (months as u64) << 12);
    }
    c.nontrivial = true;
    Ok(())
}
