//! C06: a payment processor follows a leg along a valuation clock that advances, jumps and is set
//! back, and that is restarted from its last checkpoint at arbitrary points.
use crate::gen::*;
use crate::model::*;
use rust_quantlib::cashflows::cashflow;
use rust_quantlib::maths::solvers1d::brent::Brent;
use rust_quantlib::rates::compounding::Compounding;
use rust_quantlib::rates::interestrate::InterestRate;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::frequency::Frequency;
use simcore::{check, ev, fail, Ctx, Res};

pub fn run(c: &mut Ctx) -> Res {
    let first = any_date(c, ser(1950, 1, 1), ser(2150, 1, 1));
    let mut flows = draw_leg(c, first, 10);
    if c.chance(1, 12) {
        flows.retain(|f| matches!(f, Flow::Plain(..)));
        if flows.is_empty() {
            flows.push(Flow::Plain(1, 100.0, first));
        }
    }
    let sorted = !c.chance(1, 5);
    if !sorted {
        // flows as they were entered
        for i in (1..flows.len()).rev() {
            let j = c.idx(i + 1);
            flows.swap(i, j);
        }
        c.fault("flows-out-of-order");
    }
    let layers = c.below(3) as u8;
    let leg = lib_leg(&flows, layers);
    let dates: Vec<i32> = flows.iter().map(|f| f.date()).collect();
    let last = *dates.iter().max().unwrap();
    ev!(c, "leg of {} flows, first {} last {}, {layers} wrapper layers", flows.len(), iso(dates[0]), iso(last));
    let accrued_until = flows.iter().filter_map(|f| match f { Flow::Coupon(x) => Some(x.end), _ => None }).max();
    let (g, w) = (s0(lib!(c, cashflow::maturity_date(&leg))), accrued_until.unwrap_or(last));
    check!(g == w, "maturity", "the leg matures on {}, its last accrual (or payment, if nothing accrues) is on {}", iso(g), iso(w));
    let (f_jump, f_back, f_crash) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 2));
    let mut t = first - c.range(0, 40) as i32;
    let mut checkpoint = (t, vec![0u32; flows.len()]);
    let mut paid = vec![0u32; flows.len()];
    let mut processed = t; // flows before this date are in the books
    for i in 0..flows.len() {
        if dates[i] < t {
            paid[i] += 1;
            checkpoint.1[i] += 1;
        }
    }
    let steps = 4 + c.tail(if c.thorough { 40 } else { 16 });
    let total: f64 = flows.iter().map(|f| f.amount().abs()).sum();
    let mut crossed = false;
    for k in 0..=steps {
        // move the clock
        let before = t;
        let next_pay = dates.iter().copied().filter(|&d| d > t).min().unwrap_or(last + 5);
        t = match c.below(8) {
            0 => t + 1,
            1 | 2 => next_pay,
            3 => next_pay - 1,
            4 => next_pay + 1,
            5 if f_jump => {
                c.fault("clock-jump-forward");
                t + c.range(0, 800) as i32
            }
            6 if f_back => {
                c.fault("clock-set-back");
                t - c.range(0, 200) as i32
            }
            _ => t,
        };
        if k == steps {
            t = last + 1 + c.range(0, 3) as i32; // faults stop: the clock passes the last date
        }
        t = t.clamp(MIN + 500, MAX - 500);
        if f_crash && c.chance(1, 6) {
            c.fault("processor-restart");
            paid = checkpoint.1.clone();
            processed = checkpoint.0;
        }
        ev!(c, "clock {} (was {})", iso(t), iso(before));
        c.sim_days((t - before).unsigned_abs() as u64);
        // the books: everything that occurred on the clock and is not booked yet, once
        for (i, f) in leg.iter().enumerate() {
            let now = lib!(c, f.has_occurred(&d0(t), true));
            let was = lib!(c, f.has_occurred(&d0(processed), true));
            if now && !was {
                paid[i] += 1;
            }
            if was && !now && t >= processed {
                fail!("un-occurred", "flow {i} of {} had occurred on {} but not on the later {}", iso(dates[i]), iso(processed), iso(t));
            }
        }
        processed = processed.max(t);
        if c.chance(1, 3) {
            checkpoint = (processed, paid.clone());
        }
        for incl in [false, true] {
            let want: Vec<bool> = flows.iter().map(|f| f.occurred(t, incl)).collect();
            for (i, f) in leg.iter().enumerate() {
                let g = lib!(c, f.has_occurred(&d0(t), incl));
                check!(g == want[i], "occurrence", "flow {i} dated {}: has_occurred({}, include = {incl}) = {g}", iso(dates[i]), iso(t));
                if dates[i] == t {
                    c.probe("clock-on-payment-date");
                    crossed = true;
                }
                let gx = lib!(c, f.trading_ex_coupon(d0(t)));
                check!(gx == flows[i].is_ex(t), "ex-coupon", "flow {i} dated {}: trading_ex_coupon({}) = {gx}", iso(dates[i]), iso(t));
            }
            let pending = want.iter().position(|x| !x);
            let g = lib!(c, cashflow::next_cashflow(&leg, incl, d0(t)));
            check!(g == pending, "next-cashflow", "next_cashflow({}, include = {incl}) = {g:?}, first pending flow is {pending:?}", iso(t));
            // every aggregate counts exactly the pending flows
            let zero = InterestRate::new(0.0, DayCounter::actual360(), Compounding::Simple, Frequency::Annual);
            let g = c.catch(|| cashflow::npv(&leg, &zero, incl, d0(t), d0(t)));
            let w: f64 = flows.iter().zip(&want).filter(|(f, o)| !**o && !f.is_ex(t)).map(|(f, _)| f.amount()).sum();
            // discounting from flow to flow needs them in order; it may refuse others
            let ok = match g { Ok(g) => close(g, w, total), Err(_) => !sorted };
            check!(ok, "undiscounted-pv", "undiscounted value on {} (include = {incl}) is {g:?}, pending flows sum to {w}", iso(t));
            let g = lib!(c, cashflow::accrued_amount(&leg, incl, d0(t)));
            let w = match pending {
                Some(i) => flows.iter().filter(|f| f.date() == dates[i]).map(|f| f.accrued(t)).sum(),
                None => 0.0,
            };
            check!(close(g, w, total), "accrued", "accrued_amount({}, include = {incl}) = {g}, flows paid next accrued {w}", iso(t));
            if pending.is_none() {
                c.probe("nothing-pending");
                let g = lib!(c, cashflow::modified_duration(&leg, &zero, incl, d0(t), d0(t)));
                check!(g == 0.0, "expired-leg", "duration of an expired leg on {} is {g}", iso(t));
                let r = c.catch(|| cashflow::bond_yield(&Brent::default(), &leg, 50.0, DayCounter::actual360(), Compounding::Simple, Frequency::Annual, incl, d0(t), d0(t), 1e-8, 0.05));
                check!(r.is_err(), "expired-leg", "an expired leg yields {r:?} on {}", iso(t));
            }
        }
        c.sig((pending_mask(&flows, t) << 1) ^ layers as u64);
    }
    for i in 0..flows.len() {
        check!(paid[i] == 1, "not-exactly-once", "flow {i} dated {} was booked {} times", iso(dates[i]), paid[i]);
    }
    c.nontrivial = crossed;
    Ok(())
}
fn pending_mask(flows: &[Flow], t: i32) -> u64 {
    flows.iter().fold(0, |m, f| simcore::rng::mix(m ^ ((f.date() - t).clamp(-3, 3) + 5) as u64))
}
