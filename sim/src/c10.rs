//! C10: the life of a bond on a clock that ticks, jumps, is set back and restarts: notional,
//! tradeability, settlement, accrued interest and cash flows agree with its terms and each other.
use crate::bonds::*;
use crate::gen::*;
use crate::model::*;
use rust_quantlib::datetime::frequency::Frequency;
use rust_quantlib::datetime::timeunit::TimeUnit;
use rust_quantlib::instruments::zerocouponbond::ZeroCouponBond;
use rust_quantlib::rates::compounding::Compounding;
use rust_quantlib::pricingengines::bond::bondfunctions;
use simcore::{check, ev, fail, Ctx, Res};

pub fn run(c: &mut Ctx) -> Res {
    let b = BondSpec::draw(c, &[100.0, 1_000_000.0, 1.0, 37.5]);
    let Ok(Some(r)) = b.reference() else { return Ok(()) };
    if r.flows.iter().any(|f| c.catch(|| f.amount()).is_err()) {
        return Ok(());
    }
    let face = b.face;
    ev!(c, "{}", b.describe(&r));
    let mut t = r.first - c.range(0, 60) as i32;
    let mut bond = lib!(c, b.lib(t));
    let (f_jump, f_back, f_crash) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 2));
    // cash flows: the coupons of the terms, redemptions after the coupons of the same day
    let fl = bond.cashflows();
    check!(fl.len() == r.flows.len(), "cash-flows", "{} cash flows, terms give {}", fl.len(), r.flows.len());
    for (i, (g, w)) in fl.iter().zip(&r.flows).enumerate() {
        check!(s0(g.date()) == w.date() && close(lib!(c, g.amount()), w.amount(), face), "cash-flows",
            "flow {i} is {} on {}, terms give {} on {}", g.amount(), iso(s0(g.date())), w.amount(), iso(w.date()));
    }
    let accrued_until = r.flows.iter().filter_map(|f| match f { Flow::Coupon(x) => Some(x.end), _ => None }).max();
    let (fm, last_day) = (s0(lib!(c, bondfunctions::maturity_date(bond.cashflows()))), accrued_until.unwrap_or(r.last()));
    check!(fm == last_day, "maturity", "the flows mature {}, the last accrual (or payment, if nothing accrues) is on {}", iso(fm), iso(last_day));
    let m = lib!(c, bond.maturity_date());
    check!(s0(m) == r.maturity, "maturity", "maturity {}, terms give {}", iso(s0(m)), iso(r.maturity));
    check!(s0(bond.issue_date()) == b.issue && bond.settlement_days() == b.days, "terms", "issue date or settlement days changed");
    let mut settles: Vec<(i32, i32)> = vec![];
    let last = r.last();
    let mut received = 0.0;
    let mut booked_to = t;
    let mut checkpoint = (t, 0.0);
    let steps = 3 + c.tail(if c.thorough { 40 } else { 14 });
    for k in 0..=steps {
        let before = t;
        let next = r.flows.iter().map(|f| f.date()).find(|&d| d > t).unwrap_or(last + 1);
        t = match c.below(9) {
            0 | 1 => t + c.range(1, 20) as i32,
            2 => next,
            3 => next - 1,
            4 => next + 1,
            5 if f_jump => {
                c.fault("clock-jump-forward");
                t + c.range(30, 900) as i32
            }
            6 if f_back => {
                c.fault("clock-set-back");
                t - c.range(1, 300) as i32
            }
            7 if b.issue != 0 => b.issue + c.range(-8, 2) as i32,
            _ => t + 1,
        };
        if k == steps {
            t = last + c.range(0, 1) as i32;
        }
        t = t.clamp(r.first - 1500, last + 1000);
        c.sim_days((t - before).unsigned_abs() as u64);
        if f_crash && c.chance(1, 5) {
            c.fault("rebuild-from-terms");
            bond = lib!(c, b.lib(t));
            received = checkpoint.1;
            booked_to = checkpoint.0;
        }
        ev!(c, "clock {}", iso(t));
        // notional and tradeability
        let want = r.notional(face, t);
        let n = lib!(c, bond.notional(d0(t)));
        check!(close(n, want, face), "notional", "notional on {} is {n}, terms leave {want}", iso(t));
        let tr = lib!(c, bond.is_tradeable(d0(t)));
        check!(tr == (want != 0.0), "tradeable", "tradeable on {} = {tr} with notional {want} outstanding", iso(t));
        // accrued interest per 100 of what is outstanding
        let Ok(wa) = c.catch(|| r.accrued_100(face, t)) else { continue };
        let a = lib!(c, bond.accrued_amount(d0(t)));
        check!(close(a, wa, 100.0), "accrued", "accrued per 100 on {} is {a}, terms give {wa}", iso(t));
        // settlement
        if let Ok(w) = b.settlement(&r.cal, t) {
            let s = s0(lib!(c, bond.settlement_date(d0(t))));
            check!(s == w, "settlement", "trade on {} settles {}, T+{} is {} (issue {})", iso(t), iso(s), b.days, iso(w), b.issue);
            check!(s >= t && s >= b.issue, "settlement-early", "trade on {} settles {}", iso(t), iso(s));
            if let Some(&(t1, s1)) = settles.iter().find(|x| (x.0 <= t) != (x.1 <= s) && x.1 != s && x.0 != t) {
                fail!("settlement-order", "trades on {} and {} settle {} and {}", iso(t1), iso(t), iso(s1), iso(s));
            }
            settles.push((t, s));
            if s == b.issue && t < s {
                c.probe("held-to-issue-date");
            }
            if r.notional(face, s) == 0.0 {
                // redeemed by settlement: the price is zero
                let p = lib!(c, bond.dirty_price(d0(t), d0(s)));
                let q = lib!(c, bond.clean_price(d0(t), d0(s)));
                check!(p == 0.0 && q == 0.0, "redeemed-price", "redeemed by {}, priced {p} dirty {q} clean", iso(s));
            }
        }
        if want == 0.0 {
            c.probe("redeemed");
            let r1 = c.catch(|| bond.bond_yield(100.0, dc(0), Compounding::Compounded, Frequency::Annual, d0(t)));
            check!(r1.is_err(), "yield-after-redemption", "a redeemed bond yields {r1:?} on {}", iso(t));
            let r2 = c.catch(|| bond.clean_price_from_yield(0.05, dc(0), Compounding::Compounded, Frequency::Annual, d0(t)));
            check!(r2.is_err(), "yield-after-redemption", "a redeemed bond is priced {r2:?} on {}", iso(t));
        }
        // the holder's account: everything paid up to today, once
        let paid: f64 = lib!(c, bond.cashflows().iter()
            .filter(|f| f.has_occurred(&d0(t), false) && !f.has_occurred(&d0(booked_to), false)).map(|f| f.amount()).sum());
        if t > booked_to {
            received += paid;
            booked_to = t;
        }
        if c.chance(1, 3) {
            checkpoint = (booked_to, received);
        }
        let due: f64 = r.flows.iter().filter(|f| f.date() <= booked_to).map(|f| f.amount()).sum();
        check!(close(received, due, face * 10.0), "received", "holder received {received} by {}, terms pay {due}", iso(booked_to));
        if let (Kind::Zero { maturity, .. }, true) = (&b.kind, t < last) {
            // discount price and remaining months of a bill
            let z = ZeroCouponBond::new(b.days, &crate::cal::market(0), face, dt(*maturity));
            let dy = c.real(0.0, 0.1);
            let p = lib!(c, z.price_from_discount_yield(dy, d0(t)));
            let w = 100.0 - 100.0 * dy * (*maturity - t) as f64 / 360.0;
            check!(close(p, w, 100.0), "discount-price", "discount price on {} is {p}, expected {w}", iso(t));
            c.probe("discount-price");
            // its remaining life in months of thirty days
            let p = lib!(c, z.period(d0(t)));
            let w = ((*maturity - t) as f64 / 30.0).round() as i32;
            check!(p.length == w && p.unit == TimeUnit::Months, "remaining-months", "{} days from maturity on {} are {p:?}", *maturity - t, iso(t));
        }
        c.sig(((want != 0.0) as u64) ^ (r.flows.iter().filter(|f| f.date() > t).count() as u64) << 4 ^ ((a > 0.0) as u64) << 1 ^ ((a < 0.0) as u64) << 2 ^ (t < b.issue) as u64 * 8);
    }
    c.nontrivial = true;
    Ok(())
}
