//! C11: navigators walk a schedule along a moving clock while its owner truncates it, hands out
//! copies, makes illegal requests, and rebuilds it from its terms plus the truncation log.
use crate::gen::{d0, s0};
use crate::model::*;
use crate::sch::*;
use rust_quantlib::datetime::schedule::Schedule;
use simcore::{check, ev, Ctx, Res};

#[derive(Clone)]
struct Copy_ {
    lib: Schedule,
    dates: Vec<i32>,
    reg: Vec<bool>,
    eval: i32,
    log: Vec<(bool, i32)>,
}
pub fn cut_after(ds: &mut Vec<i32>, rg: &mut Vec<bool>, d: i32) {
    if d <= ds[0] {
        return;
    }
    let i = ds.iter().position(|&x| x >= d).unwrap();
    let whole = ds[i] == d;
    let tail = ds.split_off(i);
    let flags = rg.split_off(i);
    if !whole {
        // the cut period ends at tail[0]
        *ds = std::iter::once(d).chain(tail).collect();
        *rg = std::iter::once(false).chain(flags).collect();
    } else {
        *ds = tail;
        *rg = flags;
    }
}
pub fn cut_until(ds: &mut Vec<i32>, rg: &mut Vec<bool>, d: i32) {
    if d >= *ds.last().unwrap() {
        return;
    }
    let keep = ds.iter().filter(|&&x| x <= d).count();
    ds.truncate(keep);
    rg.truncate(keep - 1);
    if ds[keep - 1] != d {
        ds.push(d);
        rg.push(false);
    }
}

fn look(c: &mut Ctx, k: &Copy_, who: &str, sp: &Spec) -> Res {
    let s = &k.lib;
    let got: Vec<i32> = lib!(c, s.dates()).iter().map(|d| d.serial_number()).collect();
    check!(got == k.dates, "dates", "{who}: dates {:?}, expected {:?}", all(&got), all(&k.dates));
    check!(lib!(c, s.size()) == k.dates.len() && !s.empty(), "dates", "{who}: size {}", s.size());
    check!(s.start_date().serial_number() == k.dates[0] && s.end_date().serial_number() == *k.dates.last().unwrap(), "ends",
        "{who}: start {:?} end {:?}", s.start_date(), s.end_date());
    for i in 0..k.reg.len() {
        let g = lib!(c, s.is_regular(i + 1));
        check!(g == k.reg[i], "regularity", "{who}: period {} ({} to {}) regular = {g}", i + 1, iso(k.dates[i]), iso(k.dates[i + 1]));
        check!(s[i].serial_number() == k.dates[i], "dates", "{who}: [{i}] is {:?}", s[i]);
    }
    for bad in [0, k.reg.len() + 1] {
        let r = c.catch(|| s.is_regular(bad));
        check!(r.is_err(), "range", "{who}: is_regular({bad}) of {} periods answered {r:?}", k.reg.len());
    }
    let zero = sp.rule == rust_quantlib::datetime::dategenerationrule::DateGenerationRule::Zero;
    let tenor_ok = if zero { s.tenor().length == 0 } else { s.tenor() == sp.tenor() };
    check!(tenor_ok && s.business_day_convention() == sp.conv, "terms", "{who}: tenor {:?} convention {:?}", s.tenor(), s.business_day_convention());
    // navigation: on a date, around it, and from "today"
    for _ in 0..3 {
        let d = match c.below(5) {
            0 => 0,
            1 => k.dates[c.idx(k.dates.len())],
            2 => k.dates[c.idx(k.dates.len())] + c.pick(&[1, -1]),
            3 => c.range(k.dates[0] as i64 - 40, *k.dates.last().unwrap() as i64 + 40) as i32,
            _ => k.eval,
        };
        let at = if d == 0 { k.eval } else { d };
        let (n, p) = (s0(lib!(c, s.next_date(&d0(d)))), s0(lib!(c, s.previous_date(&d0(d)))));
        let wn = k.dates.iter().copied().find(|&x| x >= at).unwrap_or(0);
        let wp = k.dates.iter().copied().filter(|&x| x < at).last().unwrap_or(0);
        let name = if d == 0 { format!("today ({})", iso(at)) } else { iso(d) };
        check!(n == wn, "next", "{who}: next_date({name}) = {}, first date on or after is {}", iso(n), iso(wn));
        check!(p == wp, "previous", "{who}: previous_date({name}) = {}, last date before is {}", iso(p), iso(wp));
        if d == 0 {
            c.probe("navigated-from-today");
        }
    }
    Ok(())
}
fn all(v: &[i32]) -> Vec<String> {
    v.iter().map(|d| iso(*d)).collect()
}

pub fn run(c: &mut Ctx) -> Res {
    let sp = Spec::draw(c, ser(1910, 1, 1), ser(2180, 1, 1), 1);
    let (_, k) = sp.calendar();
    let Ok(Some((dates, reg))) = sp.reference(&k) else { return Ok(()) };
    if !dates.windows(2).all(|w| w[0] < w[1]) {
        return Ok(());
    }
    ev!(c, "{:?} {:?} {} to {}: {} dates", sp.rule, sp.tenor(), iso(sp.effective), iso(sp.term), dates.len());
    let mut t = sp.effective - c.range(0, 40) as i32;
    let (f_jump, f_back, f_crash, f_bad) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 2), c.chance(1, 2));
    let l = lib!(c, sp.lib(t));
    let mut copies = vec![Copy_ { lib: l, dates, reg, eval: t, log: vec![] }];
    look(c, &copies[0], "fresh", &sp)?;
    let steps = 2 + c.tail(if c.thorough { 16 } else { 7 });
    for step in 0..steps {
        let i = c.idx(copies.len());
        let (lo, hi) = (copies[i].dates[0], *copies[i].dates.last().unwrap());
        let before = t;
        match c.below(8) {
            0 => t += c.range(0, 60) as i32,
            1 if f_jump => {
                c.fault("clock-jump-forward");
                t += c.range(60, 2000) as i32;
            }
            2 if f_back => {
                c.fault("clock-set-back");
                t -= c.range(0, 400) as i32;
            }
            3 if copies.len() < 4 => {
                let x = copies[i].clone();
                ev!(c, "copy of {i}");
                copies.push(x);
            }
            4 if f_crash => {
                // rebuild from terms and log, on today's date
                c.fault("rebuild-from-log");
                let log = copies[i].log.clone();
                let mut s = lib!(c, sp.lib(t));
                for &(after, d) in &log {
                    s = if after { lib!(c, s.after(&dt(d))) } else { lib!(c, s.until(&dt(d))) };
                }
                copies[i].lib = s;
                copies[i].eval = t;
                ev!(c, "rebuild {i} on {} with {} truncations", iso(t), log.len());
            }
            5 if f_bad => {
                // a cut that would leave nothing must be refused
                c.fault("illegal-cut");
                let x = hi + c.range(0, 30) as i32;
                let r = c.catch(|| copies[i].lib.after(&dt(x)).size());
                check!(r.is_err(), "illegal-cut", "after({}) of a schedule ending {} gave {r:?} dates", iso(x), iso(hi));
                let x = lo - c.range(0, 30) as i32;
                let r = c.catch(|| copies[i].lib.until(&dt(x)).size());
                check!(r.is_err(), "illegal-cut", "until({}) of a schedule starting {} gave {r:?} dates", iso(x), iso(lo));
            }
            x => {
                let after = x == 6 || c.chance(1, 3);
                let ds = &copies[i].dates;
                let d = match c.below(4) {
                    0 => ds[c.idx(ds.len())],
                    1 => ds[c.idx(ds.len())] + c.pick(&[1, -1]),
                    2 if t > lo && t < hi => t,
                    _ => c.range(lo as i64, hi as i64) as i32,
                };
                if (after && d >= hi) || (!after && d <= lo) {
                    continue;
                }
                let cut = if after { lib!(c, copies[i].lib.after(&dt(d))) } else { lib!(c, copies[i].lib.until(&dt(d))) };
                let mut n = copies[i].clone();
                n.lib = cut;
                n.log.push((after, d));
                if after { cut_after(&mut n.dates, &mut n.reg, d) } else { cut_until(&mut n.dates, &mut n.reg, d) }
                ev!(c, "{} {i} at {}", if after { "after" } else { "until" }, iso(d));
                c.probe("truncated");
                // the schedule it was cut from is untouched
                look(c, &copies[i], &format!("step {step}, source {i} after its cut"), &sp)?;
                if copies.len() < 4 && c.chance(1, 2) { copies.push(n) } else { copies[i] = n }
            }
        }
        t = t.clamp(MIN + 300, MAX - 300);
        c.sim_days((t - before).unsigned_abs() as u64);
        if c.chance(1, 3) {
            // the desk's own schedule follows the clock
            let i = c.idx(copies.len());
            if copies[i].log.is_empty() {
                copies[i].lib = lib!(c, sp.lib(t));
                copies[i].eval = t;
            }
        }
        for j in 0..copies.len() {
            if j == i || c.chance(1, 3) {
                look(c, &copies[j], &format!("step {step}, copy {j}"), &sp)?;
            }
        }
        c.sig(copies.iter().fold(step as u64, |m, k| simcore::rng::mix(m ^ (k.dates.len() as u64) << 8 ^ k.log.len() as u64)));
    }
    c.nontrivial = true;
    Ok(())
}
