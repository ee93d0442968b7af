//! C09: a dealer and a counterparty convert between prices and yields on every day of a bond's
//! life, while the clock jumps, quotes move, and the solver is starved of evaluations or started
//! from a bad guess: it may refuse, it may not answer wrongly.
use crate::bonds::*;
use crate::gen::*;
use crate::model::*;
use rust_quantlib::datetime::frequency::Frequency;
use crate::solv::NAMES;
use rust_quantlib::cashflows::cashflow;
use rust_quantlib::maths::solvers1d::brent::Brent;
use rust_quantlib::maths::solvers1d::finitedifferencenewtonsafe::FiniteDifferenceNewtonSafe;
use rust_quantlib::maths::solvers1d::newtonsafe::NewtonSafe;
use simcore::{check, ev, Ctx, Res};

/// The yields of a leg that is no bond, found by any of the solvers from its value.
fn leg_yields(c: &mut Ctx) -> Res {
    let first = any_date(c, ser(1930, 1, 1), ser(2140, 1, 1));
    let flows = draw_leg(c, first, 8);
    let leg = lib_leg(&flows, c.below(3) as u8);
    let (f_jump, f_back, f_starve) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 3));
    let last = flows.last().unwrap().date();
    let mut t = first - c.range(0, 400) as i32;
    ev!(c, "leg of {} flows from {} to {}", flows.len(), iso(first), iso(last));
    for _ in 0..2 + c.tail(if c.thorough { 20 } else { 7 }) {
        let before = t;
        t = match c.below(6) {
            0 | 1 => flows.iter().map(|f| f.date()).find(|&d| d > t).unwrap_or(last),
            2 if f_jump => {
                c.fault("clock-jump-forward");
                t + c.range(60, 900) as i32
            }
            3 if f_back => {
                c.fault("clock-set-back");
                t - c.range(1, 300) as i32
            }
            _ => t + c.range(1, 60) as i32,
        }
        .clamp(first - 400, last);
        c.sim_days((t - before).unsigned_abs() as u64);
        let y = Rate {
            r: c.real(0.001, 0.12),
            dc: c.idx(N_DC),
            comp: 1 + c.idx(2),
            freq: c.pick(&[Frequency::Annual, Frequency::Semiannual, Frequency::Quarterly, Frequency::Monthly]),
        };
        let incl = c.chance(1, 2);
        let npv_date = if c.chance(2, 3) { t } else { t - c.range(0, 200) as i32 };
        let Ok((v, dur)) = c.catch(|| {
            let left = || flows.iter().filter(|f| !f.occurred(t, incl) && !f.is_ex(t));
            let good = left().count() > 0 && left().all(|f| f.amount() >= 0.0);
            (if good { ref_npv(&flows, &y, incl, t, npv_date) } else { 0.0 }, ref_duration(&flows, &y, incl, t, npv_date))
        }) else {
            c.probe("day-count-refused");
            continue;
        };
        // the value has to depend on the yield, and to be more than rounding
        if !(v > 0.01) || !(dur > 0.01) {
            continue;
        }
        let a = c.pick(&[1e-8, 1e-10, 1e-6]);
        let guess = c.pick(&[0.05, 0.05, 0.02, 0.1]);
        let kind = c.idx(3);
        let starved = kind == 1 && f_starve && c.chance(1, 2);
        let max = if starved { c.fault("solver-starved"); c.pick(&[2usize, 3, 5, 8, 12]) } else { 100 };
        let ask = |v: f64| match kind {
            0 => cashflow::bond_yield(&Brent::default(), &leg, v, dc(y.dc), comp(y.comp), y.freq, incl, d0(t), d0(npv_date), a, guess),
            1 => cashflow::bond_yield(&NewtonSafe::with_max_evaluations(max), &leg, v, dc(y.dc), comp(y.comp), y.freq, incl, d0(t), d0(npv_date), a, guess),
            _ => cashflow::bond_yield(&FiniteDifferenceNewtonSafe::default(), &leg, v, dc(y.dc), comp(y.comp), y.freq, incl, d0(t), d0(npv_date), a, guess),
        };
        let got = match c.catch(|| ask(v)) {
            Ok(g) => g,
            Err(m) => {
                check!(starved && m.contains("evaluation"), "no-yield", "a leg worth {v} on {} at {} (dc {} comp {}, {}): {m}", iso(t), y.r, y.dc, y.comp, NAMES[kind]);
                c.probe("refused-when-starved");
                continue;
            }
        };
        ev!(c, "{}: worth {v} at {}, {} finds {got}", iso(t), y.r, NAMES[kind]);
        let tol = 20.0 * a;
        let same = (got - y.r).abs() <= tol + 1e-9 / dur;
        if !same && kind == 1 && v < 1.0 && (got - y.r).abs() * v <= tol {
            c.finding("early-stop-small-notional", format!("on {} a leg worth {v} at {} is found to yield {got} (accuracy {a})", iso(t), y.r))?;
            continue;
        }
        check!(same, "yield-not-recovered", "on {} a leg worth {v} at {} is found by {} to yield {got} (accuracy {a}, duration {dur})", iso(t), y.r, NAMES[kind]);
        let r = c.catch(|| ask(-v));
        check!(r.is_err(), "sign", "on {} a leg that only pays is worth {} at a yield of {r:?}", iso(t), -v);
        c.probe("leg-yield-recovered");
        c.sig(kind as u64 ^ (y.dc as u64) << 4 ^ (flows.iter().filter(|f| f.date() > t).count() as u64) << 8 ^ 1 << 21);
        c.nontrivial = true;
    }
    Ok(())
}

pub fn run(c: &mut Ctx) -> Res {
    if c.chance(1, 4) {
        return leg_yields(c);
    }
    let b = BondSpec::draw(c, &[100.0, 1_000_000.0, 1.0, 37.5, 0.001]);
    let Ok(Some(r)) = b.reference() else { return Ok(()) };
    if r.flows.iter().any(|f| c.catch(|| f.amount()).is_err()) {
        return Ok(());
    }
    let face = b.face;
    ev!(c, "{}", b.describe(&r));
    let mut t = r.first + c.range(0, 30) as i32;
    let bond = lib!(c, b.lib(t));
    let last = r.last();
    let (f_jump, f_back, f_starve, f_guess) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 2), c.chance(1, 2));
    let steps = 2 + c.tail(if c.thorough { 20 } else { 7 });
    for _ in 0..steps {
        let before = t;
        let next = r.flows.iter().map(|f| f.date()).find(|&d| d > t).unwrap_or(last);
        t = match c.below(7) {
            0 | 1 => t + c.range(1, 60) as i32,
            2 => next,
            3 => next - 1,
            4 if f_jump => {
                c.fault("clock-jump-forward");
                t + c.range(60, 900) as i32
            }
            5 if f_back => {
                c.fault("clock-set-back");
                t - c.range(1, 300) as i32
            }
            _ => t + 1,
        }
        .clamp(r.first - 200, last - 1);
        c.sim_days((t - before).unsigned_abs() as u64);
        let y = Rate {
            r: match c.below(5) {
                0 => -c.real(0.0, 0.01),
                1 => c.real(0.1, 0.2),
                2 if c.chance(1, 3) => c.pick(&[0.0, -0.0, 0.05, 0.1, 1e-12, 1.0]),
                _ => c.real(0.001, 0.1),
            },
            dc: c.idx(N_DC),
            comp: c.idx(5),
            freq: c.pick(&[Frequency::Annual, Frequency::Semiannual, Frequency::Quarterly, Frequency::Monthly]),
        };
        let n = r.notional(face, t);
        // a day count may refuse the periods it is given
        let Ok((npv, acc, dur)) = c.catch(|| (ref_npv(&r.flows, &y, false, t, t), r.accrued_100(face, t), ref_duration(&r.flows, &y, false, t, t))) else {
            c.probe("day-count-refused");
            continue;
        };
        if !(npv > 1e-6 * face) || !dur.is_finite() {
            continue;
        }
        ev!(c, "{}: yield {} dc {} comp {} {:?}", iso(t), y.r, y.dc, y.comp, y.freq);
        let (yd, yc) = (dc(y.dc), y.lib().compounding);
        let want = npv * 100.0 / n;
        let dirty = lib!(c, bond.dirty_price_from_yield(y.r, yd.clone(), yc.clone(), y.freq, d0(t)));
        check!(close(dirty, want, want), "dirty-price", "dirty price on {} at {} is {dirty}, its flows give {want}", iso(t), y.r);
        let clean = lib!(c, bond.clean_price_from_yield(y.r, yd.clone(), yc.clone(), y.freq, d0(t)));
        check!(close(clean, want - acc, want), "clean-price", "clean price on {} at {} is {clean}, dirty {want} accrued {acc}", iso(t), y.r);
        // a higher yield is a lower price
        let up = lib!(c, bond.clean_price_from_yield(y.r + 0.001, yd.clone(), yc.clone(), y.freq, d0(t)));
        check!(up <= clean + 1e-9 * want, "not-monotone", "on {} the price is {clean} at {} and {up} at {}", iso(t), y.r, y.r + 0.001);
        // the other way, where the value depends on the yield at all
        let mut prev = t;
        let gap = r.flows.iter().filter(|f| f.date() > t).map(|f| f.date() - std::mem::replace(&mut prev, f.date())).max().unwrap_or(0);
        if matches!(y.comp, 0 | 4) && (gap > 12 * 365 || dur.abs() > 100.0 || y.r * (last - t) as f64 / 365.0 < -0.5) {
            // simple growth over decades has a pole close to the yields in question
            c.probe("pole");
            continue;
        }
        if dur.abs() < 1e-6 {
            c.probe("no-time-left");
            continue;
        }
        let mut max = None;
        if f_starve && c.chance(1, 3) {
            c.fault("solver-starved");
            max = Some(c.pick(&[2usize, 3, 5, 8, 12]));
        }
        let mut guess = None;
        if f_guess && (y.comp == 1 || y.comp == 2) && c.chance(1, 3) {
            c.fault("bad-guess");
            guess = Some(c.pick(&[0.5, 0.001, 0.2, 0.01]));
        }
        let acc_req = c.pick(&[None, Some(1e-10), Some(1e-6)]);
        let a = acc_req.unwrap_or(1e-8);
        let got = if max.is_none() && guess.is_none() && acc_req.is_none() {
            c.catch(|| bond.bond_yield(clean, yd.clone(), yc.clone(), y.freq, d0(t)))
        } else {
            c.catch(|| bond.bond_yield_with_options(clean, yd.clone(), yc.clone(), y.freq, d0(t), acc_req, max, guess))
        };
        let got = match got {
            Ok(g) => g,
            Err(m) => {
                // refusing is allowed only to a starved solver
                check!(max.is_some() && m.contains("evaluation"), "no-yield", "price {clean} on {} (yield {} dc {} comp {}): {m}", iso(t), y.r, y.dc, y.comp);
                c.probe("refused-when-starved");
                continue;
            }
        };
        ev!(c, "yield of {clean} is {got}");
        let tol = 20.0 * a;
        // the solver's step is the yield error times the value: on a value below one it stops early
        let back = lib!(c, bond.clean_price_from_yield(got, yd.clone(), yc.clone(), y.freq, d0(t)));
        let priced = (back - clean).abs() <= want * (1.0 + dur.abs()) * tol + 1e-9 * want;
        let same = dur <= 0.01 || (got - y.r).abs() <= tol + 1e-9 / dur;
        // (and its duration has a pole where simple growth over the whole time ends)
        let pole = matches!(y.comp, 0 | 4) && (last - t) > 15 * 365;
        if !(priced && same) && npv < 1.0 && (pole || (got - y.r).abs() * npv <= tol) {
            c.finding("early-stop-small-notional", format!("on {} price {clean} gives yield {got}, which prices at {back} (accuracy {a}, worth {npv})", iso(t)))?;
            continue;
        }
        check!(priced, "price-not-recovered", "on {} price {clean} gives yield {got}, which prices at {back} (accuracy {a})", iso(t));
        check!(same, "yield-not-recovered", "on {} yield {} prices at {clean}, which yields {got} (accuracy {a}, duration {dur})", iso(t), y.r);
        if dur > 0.01 {
            c.probe("yield-recovered");
        }
        c.sig((y.comp as u64) ^ (y.dc as u64) << 4 ^ (r.flows.iter().filter(|f| f.date() > t).count() as u64) << 8 ^ (max.is_some() as u64) << 20);
        c.nontrivial = true;
    }
    Ok(())
}
