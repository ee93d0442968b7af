//! C07: an accrual book follows the coupons of a leg along a clock that ticks, jumps, is set back,
//! and is restarted from the leg's terms.
use crate::gen::*;
use crate::leg::*;
use crate::model::*;
use rust_quantlib::cashflows::cashflow::{self, CashFlow};
use rust_quantlib::cashflows::coupon::Coupon;
use rust_quantlib::cashflows::fixedratecoupon::FixedRateCoupon;
use rust_quantlib::pricingengines::bond::bondfunctions;
use simcore::{check, ev, Ctx, Res};
use std::rc::Rc;

fn wrap(l: Vec<FixedRateCoupon>, layers: u8) -> Vec<Rc<dyn Coupon>> {
    l.into_iter()
        .map(|x| {
            let x: Rc<dyn Coupon> = Rc::new(x);
            match layers {
                0 => x,
                _ => Rc::new(x),
            }
        })
        .collect()
}

pub fn run(c: &mut Ctx) -> Res {
    let ls = LegSpec::draw(c, ser(1915, 1, 1), ser(2170, 1, 1), 1);
    let Ok(Some(cs)) = ls.reference() else { return Ok(()) };
    // terms the day count refuses are not a leg
    if cs.iter().any(|x| c.catch(|| x.amount()).is_err()) {
        c.probe("terms-refused");
        return Ok(());
    }
    let n = cs.len();
    let layers = c.below(2) as u8;
    ev!(c, "{:?} {:?} {} to {}: {n} coupons, lag {:?} ex {:?} dc {} layers {layers}", ls.sp.rule, ls.sp.tenor(), iso(ls.sp.effective), iso(ls.sp.term), ls.lag, ls.ex, ls.rates[0].dc);
    let mut t = cs[0].start - c.range(0, 20) as i32;
    let mut leg = wrap(lib!(c, ls.lib(t)), layers);
    check!(leg.len() == n, "tiling", "{} coupons for {n} schedule periods", leg.len());
    for (i, (g, w)) in leg.iter().zip(&cs).enumerate() {
        let span = (s0(g.accrual_start_date()), s0(g.accrual_end_date()));
        check!(span == (w.start, w.end), "tiling", "coupon {i} accrues {} to {}, its period is {} to {}", iso(span.0), iso(span.1), iso(w.start), iso(w.end));
        check!(s0(g.date()) == w.pay, "payment-date", "coupon {i} ending {} pays {}, terms give {}", iso(w.end), iso(s0(g.date())), iso(w.pay));
        let r = (s0(g.reference_period_start()), s0(g.reference_period_end()));
        check!(r == (w.ref_a, w.ref_b), "reference-period", "coupon {i} {} to {}: reference period {} to {}, expected {} to {}", iso(w.start), iso(w.end), iso(r.0), iso(r.1), iso(w.ref_a), iso(w.ref_b));
        check!(s0(g.ex_coupon_date()) == w.ex, "ex-date", "coupon {i} paid {} trades ex from {}, terms give {}", iso(w.pay), iso(s0(g.ex_coupon_date())), iso(w.ex));
        check!(g.nominal() == w.nominal && g.rate() == w.rate.r, "terms", "coupon {i}: nominal {} rate {}, terms give {} and {}", g.nominal(), g.rate(), w.nominal, w.rate.r);
        let days = crate::dayref::count(w.rate.dc, w.start, w.end);
        check!(lib!(c, g.accrual_days()) == days, "accrual-days", "coupon {i}: accrual_days {}, its day counter gives {days}", g.accrual_days());
        let p = w.rate.yf(w.start, w.end, w.ref_a, w.ref_b);
        check!(close(lib!(c, g.accrual_period()), p, 1.0), "accrual-days", "coupon {i}: accrual_period {}, its day counter gives {p}", g.accrual_period());
    }
    let end = cs.iter().map(|x| x.pay).max().unwrap();
    let (f_jump, f_back, f_crash) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 2));
    let steps = 4 + c.tail(if c.thorough { 40 } else { 14 });
    let mut seen = t;
    let scale = cs.iter().map(|x| x.nominal).fold(1.0, f64::max);
    for k in 0..=steps {
        let before = t;
        let x = cs[c.idx(n)];
        t = match c.below(10) {
            0 | 1 => t + 1,
            2 => x.end,
            3 => x.pay,
            4 => x.pay + 1,
            5 if x.ex != 0 => x.ex + c.range(-1, 1) as i32,
            6 => x.start + c.range(0, 1) as i32,
            7 if f_jump => {
                c.fault("clock-jump-forward");
                t + c.range(2, 700) as i32
            }
            8 if f_back => {
                c.fault("clock-set-back");
                t - c.range(1, 300) as i32
            }
            _ => c.range(x.start as i64, x.pay.max(x.start) as i64) as i32,
        };
        if k == steps {
            t = end + 1; // faults stop; every coupon is paid
        }
        c.sim_days((t - before).unsigned_abs() as u64);
        if f_crash && c.chance(1, 5) {
            c.fault("rebuild-from-terms");
            leg = wrap(lib!(c, ls.lib(t)), layers);
        }
        ev!(c, "clock {}", iso(t));
        for (i, (g, w)) in leg.iter().zip(&cs).enumerate() {
            if w.start - 400 > t || w.pay + 400 < t {
                continue;
            }
            let who = format!("coupon {i} ({} to {}, paid {}, ex {})", iso(w.start), iso(w.end), iso(w.pay), if w.ex == 0 { "never".into() } else { iso(w.ex) });
            // a day count may refuse the sub-period: then nothing is promised
            let Ok(want) = c.catch(|| (w.accrued(t), w.accrued_period(t), w.accrued_days(t))) else {
                c.probe("sub-period-refused");
                continue;
            };
            let a = lib!(c, g.accrued_amount(d0(t)));
            check!(close(a, want.0, w.nominal.abs().max(want.0.abs())), "accrued", "{who}: accrued on {} is {a}, expected {}", iso(t), want.0);
            let p = lib!(c, g.accrued_period(d0(t)));
            check!(close(p, want.1, 1.0), "accrued-period", "{who}: accrued period on {} is {p}, expected {}", iso(t), want.1);
            let d = lib!(c, g.accrued_days(d0(t)));
            check!(d == want.2, "accrued-days", "{who}: accrued days on {} are {d}, expected {}", iso(t), want.2);
            let amount = lib!(c, g.amount());
            // conservation
            if t <= w.start || t > w.pay {
                check!(a == 0.0, "outside-life", "{who}: accrues {a} on {}", iso(t));
                c.probe("outside-life");
            } else if t >= w.end && !w.is_ex(t) {
                check!(close(a, amount, w.nominal.abs().max(amount.abs())), "not-fully-accrued", "{who}: accrued {a} of {amount} on {}", iso(t));
                c.probe("fully-accrued");
            } else if w.is_ex(t) {
                c.probe("ex-coupon-day");
                if w.rate.dc < N_ADDITIVE && w.rate.comp == 0 && t >= w.start {
                    // buyer's rebate and seller's accrual make up the coupon
                    let run = w.interest(w.start, t.min(w.end));
                    check!(close(run - a, amount, w.nominal.abs().max(run.abs())), "ex-conservation", "{who}: on {} accrued to date {run} less ex accrual {a} is not the coupon {amount}", iso(t));
                }
            }
            if t > seen && w.rate.dc < N_ADDITIVE && w.rate.comp == 0 && !w.is_ex(t) && t > w.start && t <= w.pay && !w.is_ex(seen) {
                // what accrues between two looks is the interest of the days between them
                let from = seen.clamp(w.start, w.end);
                let base = if seen <= w.start { 0.0 } else { lib!(c, g.accrued_amount(d0(seen))) };
                check!(close(a - base, w.interest(from, t.min(w.end)), w.nominal.abs().max(a.abs())), "increment", "{who}: accrued {base} on {} and {a} on {}", iso(seen), iso(t));
            }
        }
        for incl in [false, true] {
            let next = cs.iter().position(|x| !(x.pay < t || (x.pay == t && !incl)));
            let want = c.catch(|| match next {
                Some(i) => (cs.iter().skip(i).filter(|x| x.pay == cs[i].pay).map(|x| x.accrued(t)).sum::<f64>(), cs[i].accrued_period(t), cs[i].accrued_days(t)),
                None => (0.0, 0.0, 0),
            });
            let Ok(want) = want else { continue };
            let a = lib!(c, cashflow::accrued_amount(&leg, incl, d0(t)));
            check!(close(a, want.0, scale.max(want.0.abs())), "leg-accrued", "leg accrues {a} on {} (include = {incl}), next coupon accrued {}", iso(t), want.0);
            let p = lib!(c, cashflow::accrued_period(&leg, incl, d0(t)));
            check!(close(p, want.1, 1.0), "leg-accrued-period", "leg accrued period {p} on {} (include = {incl}), next coupon {}", iso(t), want.1);
            let d = lib!(c, cashflow::accrued_days(&leg, incl, d0(t)));
            check!(d == want.2, "leg-accrued-days", "leg accrued days {d} on {} (include = {incl}), next coupon {}", iso(t), want.2);
            if !incl {
                // a bond's functions: what is paid today has been paid; interest per 100 of the notional
                let w = [want.0 * 100.0 / scale, want.1, want.2 as f64];
                let g = lib!(c, [bondfunctions::accrued_amount(&leg, scale, d0(t)), bondfunctions::accrued_period(&leg, d0(t)), bondfunctions::accrued_days(&leg, d0(t)) as f64]);
                for (i, (g, w)) in g.into_iter().zip(w).enumerate() {
                    check!(close(g, w, if i == 0 { w.abs().max(100.0) } else { 1.0 }), "bond-accrued", "bond accrued {} on {} is {g}, expected {w}", ["amount per 100", "period", "days"][i], iso(t));
                }
            }
        }
        c.sig(cs.iter().fold(0u64, |m, w| simcore::rng::mix(m ^ ((t > w.start) as u64) << 3 ^ ((t >= w.end) as u64) << 2 ^ (w.is_ex(t) as u64) << 1 ^ (t > w.pay) as u64)));
        seen = t;
    }
    let total: f64 = lib!(c, leg.iter().map(|g| g.amount()).sum());
    let want: f64 = cs.iter().map(|w| w.amount()).sum();
    check!(close(total, want, (scale * n as f64).max(want.abs())), "leg-total", "leg pays {total}, its terms give {want}");
    c.nontrivial = n > 0;
    Ok(())
}
