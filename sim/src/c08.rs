//! C08: a valuation desk marks a leg to a quoted yield on every day of a clock that ticks, jumps, is
//! set back and restarts; yesterday's mark carried at the yield must meet today's mark plus what was
//! paid in between.
use crate::gen::*;
use crate::model::*;
use rust_quantlib::cashflows::cashflow;
use rust_quantlib::pricingengines::bond::bondfunctions;
use simcore::{check, ev, Ctx, Res};

fn quote(c: &mut Ctx) -> Rate {
    let mut y = Rate::draw(c, false);
    if c.chance(1, 2) {
        y.dc = c.idx(N_ADDITIVE);
        y.comp = c.pick(&[1, 2]);
    }
    if c.chance(1, 12) {
        // in distress, or in an inflation
        y.r = c.pick(&[-0.7, -0.45, -0.2, 0.35, 0.9, 2.5]);
    }
    y
}

pub fn run(c: &mut Ctx) -> Res {
    let first = any_date(c, ser(1950, 1, 1), ser(2150, 1, 1));
    let flows = draw_leg(c, first, 12);
    let layers = c.below(3) as u8;
    let mut leg = lib_leg(&flows, layers);
    let last = flows.last().unwrap().date();
    let total: f64 = flows.iter().map(|f| f.amount().abs()).sum::<f64>().max(1e-6);
    ev!(c, "leg of {} flows to {}, {layers} layers", flows.len(), iso(last));
    let (f_jump, f_back, f_crash, f_quote) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 2), c.chance(1, 2));
    let mut t = first - c.range(0, 100) as i32;
    let mut y = quote(c);
    let mut prev: Option<(i32, f64)> = None;
    let steps = 3 + c.tail(if c.thorough { 30 } else { 12 });
    for k in 0..=steps {
        let before = t;
        let next_pay = flows.iter().map(|f| f.date()).find(|&d| d > t).unwrap_or(last + 1);
        t = match c.below(8) {
            0 | 1 => t + c.range(1, 30) as i32,
            2 => next_pay,
            3 => next_pay - 1,
            4 => next_pay + 1,
            5 if f_jump => {
                c.fault("clock-jump-forward");
                t + c.range(30, 900) as i32
            }
            6 if f_back => {
                c.fault("clock-set-back");
                t - c.range(1, 300) as i32
            }
            _ => t + 1,
        };
        if k == steps {
            t = last + 1;
        }
        t = t.clamp(first - 1500, last + 1000);
        c.sim_days((t - before).unsigned_abs() as u64);
        if f_crash && c.chance(1, 5) {
            c.fault("rebuild-from-terms");
            leg = lib_leg(&flows, layers);
        }
        if f_quote && c.chance(1, 4) {
            c.fault("quote-moved");
            y = quote(c);
            prev = None;
        }
        ev!(c, "clock {} yield {} dc {} comp {} freq {:?}", iso(t), y.r, y.dc, y.comp, y.freq);
        let rate = y.lib();
        let mut marks = [0.0; 2];
        for incl in [false, true] {
            // a day count may refuse the reference periods it is given, and a negative simple factor
            // has no meaning
            let Ok(w) = c.catch(|| ref_npv(&flows, &y, incl, t, t)) else {
                c.probe("day-count-refused");
                prev = None;
                continue;
            };
            if !w.is_finite() {
                continue;
            }
            let g = lib!(c, cashflow::npv(&leg, &rate, incl, d0(t), d0(t)));
            check!(close(g, w, total.max(w.abs())), "present-value", "value on {} (include = {incl}) is {g}, its flows give {w}", iso(t));
            let z = lib!(c, cashflow::npv(&leg, &rate, incl, d0(t), d0(0)));
            check!(close(z, g, total.max(w.abs())), "valuation-date", "value on {} without a valuation date is {z}, with it {g}", iso(t));
            marks[incl as usize] = g;
            let wd = c.catch(|| ref_duration(&flows, &y, incl, t, t)).unwrap_or(f64::NAN);
            if wd.is_finite() && wd.abs() < 1e4 && w.abs() > 1e-3 * total {
                let d = lib!(c, cashflow::modified_duration(&leg, &rate, incl, d0(t), d0(t)));
                check!(close(d, wd, 1.0 + wd.abs()), "duration", "duration on {} (include = {incl}) is {d}, its flows give {wd}", iso(t));
                // and it is the sensitivity of the value
                if y.dc < N_ADDITIVE && (y.comp == 1 || y.comp == 2) {
                    let h = 1e-5;
                    let at = |dr: f64| Rate { r: y.r + dr, ..y }.lib();
                    let (up, dn) = (cashflow::npv(&leg, &at(h), incl, d0(t), d0(t)), cashflow::npv(&leg, &at(-h), incl, d0(t), d0(t)));
                    let fd = -(up - dn) / (2.0 * h) / g;
                    check!((fd - d).abs() <= 1e-4 * (1.0 + d.abs()), "duration-is-sensitivity", "duration on {} is {d}, the value moves by {fd}", iso(t));
                }
            }
            if y.dc < N_ADDITIVE && (y.comp == 1 || y.comp == 2) {
                // the same flows valued as of another day differ by the growth between the days
                let soon = flows.iter().filter(|f| !f.occurred(t, incl)).map(|f| f.date()).min().unwrap_or(t);
                let v = (t + c.range(-30, 40) as i32).min(soon);
                let fwd = lib!(c, cashflow::npv(&leg, &rate, incl, d0(t), d0(v)));
                let w2 = g * if v >= t { y.growth(y.yf(t, v, t, v)) } else { 1.0 / y.growth(y.yf(v, t, v, t)) };
                check!(close(fwd, w2, total.max(w2.abs())), "valuation-date", "value of {} as of {} is {fwd}, carried {w2}", iso(t), iso(v));
            }
            // settled one day, valued as of another: which flows count is decided by the settlement
            let soon = flows.iter().filter(|f| !f.occurred(t, incl)).map(|f| f.date()).min().unwrap_or(t);
            let v = (t + c.range(-60, 60) as i32).max(first - 1500).min(soon);
            let either = c.catch(|| (ref_npv(&flows, &y, incl, t, v), ref_duration(&flows, &y, incl, t, v)));
            if let Ok((w2, wd2)) = either {
                let big = w2.abs() > 1e-3 * total;
                if w2.is_finite() {
                    let g2 = lib!(c, cashflow::npv(&leg, &rate, incl, d0(t), d0(v)));
                    check!(close(g2, w2, total.max(w2.abs())), "valuation-date", "value of {} (include = {incl}) as of {} is {g2}, its flows give {w2}", iso(t), iso(v));
                }
                if w2.is_finite() && big && wd2.is_finite() && wd2.abs() < 1e4 {
                    let d2 = lib!(c, cashflow::modified_duration(&leg, &rate, incl, d0(t), d0(v)));
                    check!(close(d2, wd2, 1.0 + wd2.abs()), "duration", "duration of {} (include = {incl}) as of {} is {d2}, its flows give {wd2}", iso(t), iso(v));
                    c.probe("valued-elsewhere");
                }
            }
            let notional = 100.0;
            let flows_rc = leg.clone();
            let p = lib!(c, bondfunctions::dirty_price(notional, &flows_rc, &rate, d0(t)));
            if !incl {
                check!(close(p, g, total.max(w.abs())), "dirty-price", "dirty price on {} per 100 is {p}, value {g}", iso(t));
            }
        }
        if y.dc < N_ADDITIVE && (y.comp == 1 || y.comp == 2) {
            // flows of today are the whole difference between including and excluding them
            let today: f64 = flows.iter().filter(|f| f.date() == t && !f.is_ex(t)).map(|f| f.amount()).sum();
            check!(close(marks[1] - marks[0], today, total.max(marks[1].abs())), "todays-flows", "on {} including today's flows adds {}, they are {today}", iso(t), marks[1] - marks[0]);
            // roll-forward: what was worth (excluding flows up to then) grows at the yield
            if let Some((t0, v0)) = prev {
                let ex_changed = flows.iter().any(|f| f.date() > t0 && f.is_ex(t0) != f.is_ex(t));
                if t > t0 && !ex_changed {
                    let mut want = v0 * y.growth(y.yf(t0, t, t0, t));
                    // what the carrying may lose to cancellation
                    let mut size = total.max(want.abs());
                    let mut paid = 0;
                    for f in flows.iter().filter(|f| f.date() > t0 && f.date() <= t && !f.is_ex(t0)) {
                        let grown = f.amount() * y.growth(y.yf(f.date(), t, f.date(), t));
                        want -= grown;
                        size = size.max(grown.abs());
                        paid += 1;
                    }
                    check!(close(marks[0], want, size * 10.0), "roll-forward", "value {v0} on {} carried to {} less {paid} payments is {want}, marked {}", iso(t0), iso(t), marks[0]);
                    c.probe(if paid > 0 { "rolled-over-payment" } else { "rolled" });
                }
            }
            prev = Some((t, marks[0]));
        } else {
            prev = None;
        }
        if t > last {
            check!(marks == [0.0, 0.0], "expired", "an expired leg is worth {marks:?} on {}", iso(t));
            c.probe("expired");
        }
        c.sig(flows.iter().filter(|f| f.date() > t).count() as u64 ^ (y.comp as u64) << 8 ^ (y.dc as u64) << 16 ^ (layers as u64) << 24);
    }
    let none: Vec<std::rc::Rc<dyn cashflow::CashFlow>> = vec![];
    let z = lib!(c, cashflow::npv(&none, &y.lib(), true, d0(t), d0(t)));
    check!(z == 0.0, "empty", "an empty leg is worth {z}");
    c.nontrivial = true;
    Ok(())
}
