//! C02: the default pricing context is the UTC day on which it was made; a context made earlier or
//! given explicitly never moves, whatever the clock and the time zone do.
use crate::model::*;
use crate::ops::*;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::imm::IMM;
use simcore::iso::isolated;
use simcore::sched::{run_threads, Opts};
use simcore::seams::{self, clock};
use simcore::{check, ev, fail, Ctx, Res};
use std::cell::RefCell;

const DAY: i128 = 86_400_000_000_000;
fn day_of(ns: i128) -> i32 {
    ns.div_euclid(DAY) as i32 + 25569
}
/// Makes a default context (or today's date); the days of the clock during the call bound the answer.
fn make_one(via: u64) -> Result<(Date, i128, i128), String> {
    let a = clock().real_ns;
    let d = seams::catch(|| match via {
        0 => PricingContext::default().eval_date,
        1 => Date::todays_date(),
        _ => {
            let c: PricingContext = Default::default();
            let d = c;
            d.eval_date
        }
    })?;
    Ok((d, a, clock().real_ns))
}
fn whole(d: &Date, who: &str) -> Res<i32> {
    let s = d.serial_number();
    let v = civ(s);
    // every view of the date says the same day
    let view = (d.year(), i32::from(d.month()), d.day_of_month() as i32);
    if view != (v.y, v.m, v.d) || *d != dt(s) || format!("{d:?}") != format!("{:?}", dt(s)) {
        fail!("torn-day", "{who}: serial says {}, the calendar view {view:?}, printed {d:?}", iso(s));
    }
    Ok(s)
}

pub fn run(c: &mut Ctx) -> Res {
    let lo = day_ns(ser(1970, 1, 1));
    let hi = day_ns(ser(2195, 12, 20));
    let start = any_date(c, ser(1970, 1, 3), ser(2195, 12, 1));
    let k = clock();
    k.real_ns = day_ns(start) + c.range(0, 86_399) as i128 * 1_000_000_000;
    let (f_jump, f_back, f_tick, f_zone) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 2), c.chance(1, 2));
    let mut held: Vec<(PricingContext, i32)> = vec![];
    // one explicit-context question, answered alone under the real run's first clock
    let (obj, q) = (c.below(1 << 24) << 16, c.below(1 << 24) << 16);
    let kind = c.pick(&[2usize, 1, 3, 5, 6, 0]);
    let alone = isolated(|| make(kind, obj)(q));
    let desk = make(kind, obj);
    let steps = 2 + c.tail(if c.thorough { 30 } else { 10 });
    for _ in 0..steps {
        let k = clock();
        let before = k.real_ns;
        let midnight = (k.real_ns.div_euclid(DAY) + 1) * DAY;
        match c.below(8) {
            0 => k.real_ns += c.range(1, 100_000) as i128 * 1_000_000_000,
            1 => k.real_ns = midnight - 1,
            2 => k.real_ns = midnight,
            3 => k.real_ns = midnight - c.range(1, 5_000_000_000) as i128,
            4 if f_jump => {
                c.fault("clock-jump-forward");
                k.real_ns += c.range(1, 4000) as i128 * DAY;
            }
            5 if f_back => {
                c.fault("clock-set-back");
                k.real_ns -= c.range(1, 4000) as i128 * DAY / 3;
            }
            6 => {
                // the last instant of a month or a year
                let s = k.real_ns.div_euclid(DAY) as i32 + 25569;
                let e = if c.chance(1, 2) { eom(s) } else { ser(civ(s).y, 12, 31) };
                k.real_ns = day_ns(e + 1) - c.pick(&[1i128, 1000, 1_000_000_000]);
            }
            _ => k.real_ns += DAY,
        }
        k.real_ns = k.real_ns.clamp(lo, hi);
        k.tick_ns = 0;
        if f_tick && c.chance(1, 2) {
            c.fault("clock-moves-during-call");
            k.tick_ns = c.pick(&[1i128, 1_000_000, 1_000_000_000, DAY / 24, DAY, 31 * DAY]);
        }
        if f_zone && c.chance(1, 2) {
            c.fault("time-zone-changed");
            std::env::set_var("TZ", c.pick(&["<+14>-14", "<-12>12", "EST5EDT", "UTC0"]));
        }
        c.sim_days(((k.real_ns - before).unsigned_abs() / DAY as u128) as u64);
        let nt = c.pick(&[1usize, 1, 1, 2, 3]);
        let outs: Vec<RefCell<Option<Result<(Date, i128, i128), String>>>> = (0..nt).map(|_| Default::default()).collect();
        let via = c.below(3);
        if nt == 1 {
            *outs[0].borrow_mut() = Some(make_one(via));
        } else {
            let o = Opts { quantum: c.pick(&[3, 20, 100]), stall_den: c.pick(&[0, 4]), max_preemptions: 60 };
            let fs = outs.iter().map(|o| Box::new(move || *o.borrow_mut() = Some(make_one(via))) as Box<dyn FnOnce() + '_>).collect();
            run_threads(o, fs);
        }
        for (i, o) in outs.iter().enumerate() {
            let o = o.borrow();
            match o.as_ref().unwrap() {
                Err(m) => fail!("panic", "default context on {}: {m}", iso(day_of(before))),
                Ok((d, a, b)) => {
                    let s = whole(d, "default context")?;
                    ev!(c, "clock {}..{} caller {i}: {}", a, b, iso(s));
                    // the clock only shows what was read from it
                    let shown: Vec<i32> = clock().log.iter().map(|x| day_of(*x)).collect();
                    check!(day_of(*a) <= s && s <= day_of(*b), "wrong-day", "a default context made between {} and {} (UTC) is for {}", at(*a), at(*b), iso(s));
                    check!(shown.contains(&s), "day-never-shown", "a default context is for {}, a day the clock never showed", iso(s));
                    held.push((PricingContext::new(*d), s));
                    c.probe(if day_of(*a) != day_of(*b) { "midnight-during-call" } else { "made" });
                }
            }
        }
        clock().tick_ns = c.pick(&[0i128, 0, DAY]);
        // contexts made before stay where they were, and so does all that depends on them
        let i = c.idx(held.len());
        let (ctx, s) = held[i];
        check!(ctx.eval_date.serial_number() == s, "context-moved", "a context made for {} now says {}", iso(s), iso(ctx.eval_date.serial_number()));
        if s < MAX - 400 {
            let copy = ctx;
            let a = lib!(c, IMM::new(copy).next_date(&Date::default(), true)).serial_number();
            let b = lib!(c, IMM::new(PricingContext::new(dt(s))).next_date(&dt(s), true)).serial_number();
            check!(a == b && a > s, "context-ignored", "next main-cycle contract in the context of {} is {}, as of that day {}", iso(s), iso(a), iso(b));
        }
        let now = desk(q);
        check!(now == alone, "clock-leaks", "a {} asked with an explicit date answers {now} at {}, {alone} otherwise", NAMES[kind], at(clock().real_ns));
        let rebuilt = make(kind, obj)(q);
        check!(rebuilt == alone, "clock-leaks", "a {} built from explicit dates answers {rebuilt} at {}, {alone} otherwise", NAMES[kind], at(clock().real_ns));
        let v = civ(day_of(clock().real_ns));
        c.sig(v.m as u64 ^ (v.d as u64) << 4 ^ (nt as u64) << 12 ^ (clock().tick_ns > 0) as u64);
    }
    c.nontrivial = true;
    Ok(())
}
fn day_ns(s: i32) -> i128 {
    (s - 25569) as i128 * DAY
}
fn at(ns: i128) -> String {
    let s = ns.rem_euclid(DAY) / 1_000_000_000;
    format!("{} {:02}:{:02}:{:02}", iso(day_of(ns)), s / 3600, s / 60 % 60, s % 60)
}
