//! C13: a desk rebuilds its schedules on every day of a clock that advances, jumps, is set back and
//! restarts. Explicit schedules must not move with the clock and must be what their terms generate;
//! schedules without an effective date must keep every date from today on.
use crate::model::*;
use crate::sch::*;
use rust_quantlib::datetime::dategenerationrule::DateGenerationRule as R;
use rust_quantlib::datetime::schedule::Schedule;
use rust_quantlib::datetime::timeunit::TimeUnit as U;
use simcore::{check, ev, fail, Ctx, Res};

fn dates(s: &Schedule) -> Vec<i32> {
    s.dates().iter().map(|d| d.serial_number()).collect()
}
fn flags(s: &Schedule) -> Vec<bool> {
    (1..s.size()).map(|i| s.is_regular(i)).collect()
}

pub fn run(c: &mut Ctx) -> Res {
    let (lo, hi) = (ser(1912, 1, 1), ser(2180, 1, 1));
    let open = c.chance(1, 2);
    let mut sp = Spec::draw(c, lo, hi, 1);
    if open {
        sp.rule = R::Backward;
        sp.first = 0;
        sp.edits[0].0 = sp.edits[0].0.max(lo);
        if c.chance(2, 3) {
            sp.ntl = 0;
        }
    }
    let step = match sp.unit { U::Days => sp.len, U::Weeks => 7 * sp.len, _ => 60 };
    let reach = (step * 100).min(2900);
    let (_, k) = sp.calendar();
    // the schedule as its terms give it, from far enough back when no effective date is given
    let mut far = sp;
    if open {
        let last = if sp.ntl != 0 { sp.ntl } else { sp.term };
        far.effective = add_months(last, -12 * (reach / 365 + 2));
    }
    let Ok(Some((full, regs))) = far.reference(&k) else { return Ok(()) };
    ev!(c, "{:?} market {} {:?} effective {} termination {} {:?}/{:?} eom {} first {} next-to-last {}", sp.rule, sp.market, sp.tenor(),
        if open { "none".into() } else { iso(sp.effective) }, iso(sp.term), sp.conv, sp.tconv, sp.eom, sp.first, sp.ntl);
    let eff0 = sp.effective;
    let lib_spec = if open { Spec { effective: 0, ..sp } } else { sp };
    let mut t = if open { sp.term - c.range(30, reach as i64) as i32 } else { eff0 };
    let (f_jump, f_back, f_bad) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 3));
    let steps = 2 + c.tail(if c.thorough { 12 } else { 6 });
    for step in 0..steps {
        let before = t;
        let next_roll = full.iter().copied().find(|&d| d > t).unwrap_or(t + 1);
        t = match c.below(8) {
            0 | 1 => t + 1,
            2 => next_roll,
            3 => next_roll - 1,
            4 => next_roll + 1,
            5 if f_jump => {
                c.fault("clock-jump-forward");
                t + c.range(2, 900) as i32
            }
            6 if f_back => {
                c.fault("clock-set-back");
                t - c.range(1, 300) as i32
            }
            _ => t,
        };
        t = t.clamp(lo + 10, hi + 3000);
        if open {
            t = t.clamp(sp.term - reach, sp.term - 1);
        }
        c.sim_days((t - before).unsigned_abs() as u64);
        if c.chance(1, 4) {
            c.fault("rebuild-from-terms");
        }
        if f_bad && !open && c.chance(1, 3) {
            refused(c, &sp, t)?;
        }
        let s = lib!(c, lib_spec.lib(t));
        let got = dates(&s);
        let fl = flags(&s);
        ev!(c, "on {}: {:?}", iso(t), got.iter().map(|d| iso(*d)).collect::<Vec<_>>());
        check!(s.size() == got.len() && *s.start_date() == s[0] && *s.end_date() == s[s.size() - 1], "shape", "size, start or end disagree with dates()");
        let third = matches!(sp.rule, R::ThirdWednesday | R::ThirdWednesdayInclusive); // one per month by construction only
        // nor where a given stub date lies in the month of a date that rolls to its end
        let stub = sp.eom_on() && (sp.first != 0 || sp.ntl != 0);
        // a month without a business day has the last one of the month before for its end
        let shut = sp.eom_on() && sp.closed.1 > 27;
        check!(third || stub || got.windows(2).all(|w| w[0] < w[1] || shut && w[0] == w[1]), "order", "on {}: dates {:?} are not increasing", iso(t), iso_all(&got));
        if !open {
            check!(got == full, "dates", "on {}: generated {:?}, the terms give {:?}", iso(t), iso_all(&got), iso_all(&full));
            check!(fl == regs, "regularity", "on {}: period flags {fl:?}, the terms give {regs:?}", iso(t));
            c.sig(step as u64 ^ (full.len() as u64) << 8 ^ (sp.rule as u64) << 20);
            continue;
        }
        // reaches back to today: nothing that is to come is cut off
        let tail: Vec<i32> = full.iter().copied().filter(|&d| d >= t).collect();
        let mine: Vec<i32> = got.iter().copied().filter(|&d| d >= t).collect();
        let hols = match k.adjust(t, sp.conv) { Ok(x) => x.max(t), Err(_) => t };
        if sp.eom_on() {
            // the start may be moved to its month end
            check!(got[0] <= hols.max(eom(t)), "starts-after-today", "on {} the schedule starts {}", iso(t), iso(got[0]));
        } else {
            check!(got[0] <= hols, "starts-after-today", "on {} the schedule starts {}", iso(t), iso(got[0]));
        }
        // the first of them may be the placeholder start itself
        let skip = (!mine.is_empty() && mine.len() == got.len()) as usize;
        check!(mine[skip..] == tail[tail.len().saturating_sub(mine.len() - skip)..] && tail.len() <= mine.len(), "dates-to-come",
            "on {} the dates to come are {:?}, the terms give {:?}", iso(t), iso_all(&mine), iso_all(&tail));
        // every date but the placeholder start is one of the terms' dates
        if let Some(x) = got[1..].iter().find(|x| !full.contains(x)) {
            if got[0] > full[0] {
                fail!("stray-date", "on {} the schedule contains {}, which the terms do not give", iso(t), iso(*x));
            }
        }
        let m = fl.len();
        let same = (0..m).rev().take_while(|&i| got[i] >= t.max(full[0])).filter(|&i| i > 0);
        for i in same {
            // flags of the periods to come, counted from the end
            let w = regs[regs.len() - (m - i)];
            check!(fl[i] == w, "regularity", "on {}: period ending {} regular = {}, the terms give {w}", iso(t), iso(got[i + 1]), fl[i]);
        }
        c.probe("open-schedule-checked");
        c.sig(step as u64 ^ (mine.len() as u64) << 8 ^ ((t - before).clamp(-5, 5) as u64) << 20);
    }
    c.nontrivial = true;
    Ok(())
}
/// Terms that mean nothing are refused on every day, not turned into some schedule.
fn refused(c: &mut Ctx, sp: &Spec, t: i32) -> Res {
    let (rule, unit) = (c.pick(&[R::Backward, R::Forward]), c.pick(&[U::Months, U::Years]));
    let base = Spec { rule, eom: false, first: 0, ntl: 0, told: 0, ..*sp };
    let twentieth = c.pick(&[R::Twentieth, R::TwentiethIMM, R::OldCDS, R::CDS, R::CDS2015]);
    let inside = (sp.effective + sp.term) / 2;
    let early = c.range(1, 400) as i32;
    let off = third_wed(inside) + c.pick(&[-7, -1, 1, 7]);
    let (what, bad) = match c.below(11) {
        0 => ("an end before its start", Spec { term: sp.effective - early, ..base }),
        1 => ("an end on its start", Spec { term: sp.effective, ..base }),
        2 => ("no start, running forward", Spec { effective: 0, rule: c.pick(&[R::Forward, R::Zero, twentieth, R::ThirdWednesday]), ..base }),
        3 => ("a negative tenor", Spec { len: -sp.len, ..base }),
        4 => ("a first date before the start", Spec { first: sp.effective - early, ..base }),
        5 => ("a first date after the end", Spec { first: sp.term + early, ..base }),
        6 => ("a next-to-last date before the start", Spec { ntl: sp.effective - early, ..base }),
        7 => ("a next-to-last date after the end", Spec { ntl: sp.term + early, ..base }),
        8 if inside > sp.effective => ("a stub date on twentieths", match c.chance(1, 2) {
            true => Spec { first: inside, rule: c.pick(&[twentieth, R::Zero]), ..base },
            false => Spec { ntl: inside, rule: c.pick(&[twentieth, R::Zero]), ..base },
        }),
        9 if off > sp.effective && off < sp.term => ("a stub date off the third Wednesday", match c.chance(1, 2) {
            true => Spec { first: off, rule: R::ThirdWednesday, ..base },
            false => Spec { ntl: off, rule: R::ThirdWednesday, ..base },
        }),
        _ => ("month ends on third Wednesdays or twentieths", Spec { eom: true, unit, rule: c.pick(&[twentieth, R::ThirdWednesday, R::ThirdWednesdayInclusive]), ..base }),
    };
    c.fault("terms-that-mean-nothing");
    let r = c.catch(|| iso_all(&dates(&bad.lib(t))));
    check!(r.is_err(), "nonsense-accepted", "a schedule with {what} was built on {}: {r:?} from {bad:?}", iso(t));
    Ok(())
}
fn iso_all(v: &[i32]) -> Vec<String> {
    v.iter().map(|d| iso(*d)).collect()
}
