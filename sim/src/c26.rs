//! C26: a meter of bond-basis time (Act/Act ISMA on a schedule) read along a clock that ticks, jumps and
//! is set back, while the schedule is cut, copied, and everything is rebuilt from its terms and the cuts.
use crate::c11::{cut_after, cut_until};
use crate::cal::*;
use crate::gen::*;
use crate::model::*;
use crate::sch::*;
use rust_quantlib::cashflows::cashflow::CashFlow;
use rust_quantlib::cashflows::fixedratecoupon::FixedRateCoupon;
use rust_quantlib::cashflows::fixedrateleg::FixedRateLeg;
use rust_quantlib::datetime::dategenerationrule::DateGenerationRule as R;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::frequency::Frequency;
use rust_quantlib::datetime::schedule::Schedule;
use rust_quantlib::datetime::timeunit::TimeUnit as U;
use rust_quantlib::rates::compounding::Compounding;
use rust_quantlib::rates::interestrate::InterestRate;
use simcore::{check, ev, Ctx, Res};

/// The periods time is measured by: the schedule's own, and notional ones of the tenor around its stubs.
fn measure(sp: &Spec, k: &RefCal, ds: &[i32], reg: &[bool]) -> Result<Option<Vec<i32>>, Off> {
    let n = ds.len();
    if n == 2 && !reg[0] {
        return Ok(None);
    }
    let adv = |d: i32, sign: i32| k.advance(d, sign * sp.len, sp.unit, sp.conv, sp.eom_on());
    let (mut head, mut tail) = (vec![ds[0]], vec![ds[n - 1]]);
    if !reg[0] {
        let p = adv(ds[1], -1)?;
        head = if p > ds[0] { vec![adv(p, -1)?, p] } else { vec![p] };
    }
    if !reg[n - 2] {
        let p = adv(ds[n - 2], 1)?;
        tail = if p < ds[n - 1] { vec![p, adv(p, 1)?] } else { vec![p] };
    }
    let q = [&head[..], &ds[1..n - 1], &tail[..]].concat();
    // a whole number of these make a year, and they are what they look like
    let plain = q.windows(2).all(|w| w[1] - w[0] >= 16 && 12 % (12.0 * (w[1] - w[0]) as f64 / 365.0).round() as i32 == 0);
    Ok(plain.then_some(q))
}
fn per_year(a: i32, b: i32) -> i32 {
    12 / (12.0 * (b - a) as f64 / 365.0).round() as i32
}
fn time(q: &[i32], a: i32, b: i32) -> f64 {
    if b < a {
        return -time(q, b, a);
    }
    q.windows(2).map(|w| (b.min(w[1]) - a.max(w[0])).max(0) as f64 / ((w[1] - w[0]) * per_year(w[0], w[1])) as f64).sum()
}

struct Meter {
    dc: DayCounter,
    leg: Vec<FixedRateCoupon>,
    ds: Vec<i32>,
    reg: Vec<bool>,
    q: Vec<i32>,
    cuts: Vec<(bool, i32)>,
}
const RATE: f64 = 0.06;
const FACE: f64 = 1e4;
fn install(c: &mut Ctx, s: Schedule) -> Res<(DayCounter, Vec<FixedRateCoupon>)> {
    let dc = DayCounter::actual_actual_isma(s.clone());
    let rate = InterestRate::new(RATE, dc.clone(), Compounding::Simple, Frequency::Annual);
    let leg = lib!(c, FixedRateLeg::new(s, vec![FACE], vec![rate]).build());
    Ok((dc, leg))
}
fn cut(s: Schedule, cuts: &[(bool, i32)]) -> Schedule {
    cuts.iter().fold(s, |s, &(head, d)| if head { s.after(&dt(d)) } else { s.until(&dt(d)) })
}
fn read(c: &mut Ctx, m: &Meter, a: i32, b: i32) -> Res<f64> {
    // whatever the reference period, it is the schedule that measures
    let (ra, rb) = if c.chance(1, 3) { (a, b) } else { (0, 0) };
    let g = lib!(c, m.dc.year_fraction(&d0(a), &d0(b), &d0(ra), &d0(rb)));
    let n = lib!(c, m.dc.day_count(&d0(a), &d0(b)));
    check!(n == b - a, "days", "{} to {}: {n} days", iso(a), iso(b));
    let w = time(&m.q, a, b);
    check!((g - w).abs() <= 1e-12 * (1.0 + w.abs()), "time", "{} to {} is {g} of a year, the periods {:?} give {w}", iso(a), iso(b), m.q.iter().map(|d| iso(*d)).collect::<Vec<_>>());
    Ok(g)
}

pub fn run(c: &mut Ctx) -> Res {
    let mut sp = Spec::draw(c, ser(1910, 1, 1), ser(2180, 1, 1), 1);
    if !matches!(sp.unit, U::Months | U::Years) || sp.rule == R::Zero {
        (sp.len, sp.unit) = c.pick(&[(6, U::Months), (3, U::Months), (1, U::Years), (12, U::Months), (4, U::Months), (2, U::Months), (1, U::Months)]);
    }
    if sp.rule == R::Zero {
        sp.rule = c.pick(&[R::Backward, R::Forward]);
    }
    sp.closed = (0, 0);
    let (_, k) = sp.calendar();
    let Ok(Some((ds, reg))) = sp.reference(&k) else { return Ok(()) };
    if !ds.windows(2).all(|w| w[0] < w[1]) {
        return Ok(());
    }
    let Ok(Some(q)) = measure(&sp, &k, &ds, &reg) else { return Ok(()) };
    let mut t = ds[0].max(q[0]);
    let (dc, leg) = {
        let s = lib!(c, sp.lib(t));
        install(c, s)?
    };
    let mut m = Meter { dc, leg, ds, reg, q, cuts: vec![] };
    let (ds0, reg0) = (m.ds.clone(), m.reg.clone());
    ev!(c, "{:?} {:?} {} to {}: {} dates, measured by {}", sp.rule, sp.tenor(), iso(sp.effective), iso(sp.term), m.ds.len(), m.q.len());
    let (f_jump, f_back, f_crash, f_cut, f_bad) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 2), c.chance(1, 2), c.chance(1, 2));
    let steps = 4 + c.tail(if c.thorough { 50 } else { 18 });
    // from the last restart of the meter to now
    let (mut since, mut total) = (t, 0.0);
    for _ in 0..steps {
        let (lo, hi) = (m.ds[0], *m.ds.last().unwrap());
        // what of the schedule is measured (a very long stub is not)
        let (mlo, mhi) = (lo.max(m.q[0]), hi.min(*m.q.last().unwrap()));
        let before = t;
        match c.below(12) {
            0 | 1 => t = (t + 1).min(mhi),
            2 | 3 => t = m.ds[c.idx(m.ds.len())].clamp(mlo, mhi).max(t),
            4 => t = (t + c.range(1, 40) as i32).min(mhi),
            5 if f_jump => {
                c.fault("clock-jump-forward");
                t = (t + c.range(100, 900) as i32).min(mhi)
            }
            6 if f_back => {
                c.fault("clock-set-back");
                t = c.range(mlo as i64, t.max(mlo) as i64) as i32
            }
            7 if f_crash => {
                c.fault("rebuild-from-terms");
                let eval = c.range(lo as i64 - 500, hi as i64) as i32;
                let s = lib!(c, cut(sp.lib(eval), &m.cuts));
                (m.dc, m.leg) = install(c, s)?;
            }
            8 if f_cut => {
                // the schedule is cut; what is left is measured by its own periods
                let head = c.chance(1, 2);
                let d = if c.chance(1, 2) { m.ds[c.idx(m.ds.len())] } else { c.range(lo as i64, hi as i64) as i32 };
                let (mut ds, mut reg) = (m.ds.clone(), m.reg.clone());
                if d <= lo || d >= hi {
                    continue;
                }
                if head { cut_after(&mut ds, &mut reg, d) } else { cut_until(&mut ds, &mut reg, d) }
                let Ok(Some(q)) = measure(&sp, &k, &ds, &reg) else { continue };
                c.fault("schedule-cut");
                m.cuts.push((head, d));
                let s = lib!(c, cut(sp.lib(t), &m.cuts));
                (m.dc, m.leg) = install(c, s)?;
                (m.ds, m.reg, m.q) = (ds, reg, q);
                ev!(c, "cut {} {}", if head { "before" } else { "after" }, iso(d));
                t = t.clamp(m.ds[0].max(m.q[0]), (*m.ds.last().unwrap()).min(*m.q.last().unwrap()));
                (since, total) = (t, 0.0);
                continue;
            }
            9 if f_cut && !m.cuts.is_empty() => {
                // the cuts are undone
                m.cuts.clear();
                let s = lib!(c, sp.lib(t));
                (m.dc, m.leg) = install(c, s)?;
                (m.ds, m.reg) = (ds0.clone(), reg0.clone());
                m.q = measure(&sp, &k, &m.ds, &m.reg).unwrap_or(None).expect("measured before");
                (since, total) = (t, 0.0);
                continue;
            }
            10 if f_bad => {
                // days that are not on the schedule
                c.fault("off-schedule");
                let far = c.range(1, 3000) as i32;
                let (a, b) = if c.chance(1, 2) { (m.q[0] - far, t) } else { (t, *m.q.last().unwrap() + far) };
                let r = c.catch(|| m.dc.year_fraction(&dt(a.max(MIN)), &dt(b.min(MAX)), &d0(0), &d0(0)));
                check!(r.is_err() || a == b, "off-schedule", "{} to {} is {r:?} of a year, on a schedule measured from {} to {}", iso(a), iso(b), iso(m.q[0]), iso(*m.q.last().unwrap()));
            }
            _ => {
                // one whole period, or all of it
                let i = c.idx(m.reg.len());
                let (a, b) = (m.ds[i], m.ds[i + 1]);
                if a < mlo || b > mhi {
                    continue;
                }
                let g = read(c, &m, a, b)?;
                let months = if sp.unit == U::Years { 12 * sp.len } else { sp.len };
                if m.reg[i] && months <= 12 && 12 % months == 0 && per_year(a, b) == 12 / months {
                    c.probe("regular-period");
                    check!((g - months as f64 / 12.0).abs() <= 1e-12, "regular", "the regular period {} to {} of {months} months is {g} of a year", iso(a), iso(b));
                } else if !m.reg[i] {
                    c.probe("stub");
                }
                let pays = lib!(c, m.leg[i].amount());
                check!((pays - FACE * RATE * time(&m.q, a, b)).abs() <= 1e-6, "coupon", "the coupon {} to {} pays {pays}, {} of a year is {}", iso(a), iso(b), time(&m.q, a, b), FACE * RATE * time(&m.q, a, b));
                let whole = read(c, &m, mlo, mhi)?;
                let parts = read(c, &m, mlo, t)? + read(c, &m, t, mhi)?;
                check!((whole - parts).abs() <= 1e-12 * (1.0 + whole), "additive", "{} to {} is {whole} of a year, {parts} in two parts at {}", iso(mlo), iso(mhi), iso(t));
            }
        }
        if t != before {
            c.sim_days((t - before).unsigned_abs() as u64);
            total += read(c, &m, before, t)?;
            let w = time(&m.q, since, t);
            check!((total - w).abs() <= 1e-11 * (1.0 + w.abs()), "conservation", "read step by step, {} to {} was {total} of a year; the periods give {w}", iso(since), iso(t));
            let back = read(c, &m, t, before)?;
            let there = read(c, &m, before, t)?;
            check!(back == -there, "backwards", "{} to {} is {there} of a year, and {back} backwards", iso(before), iso(t));
            // what the running coupon has accrued is the interest of that time
            if let Some(i) = (0..m.reg.len()).find(|&i| m.ds[i] < t && t <= m.ds[i + 1]) {
                if m.ds[i] >= mlo {
                    let a = lib!(c, m.leg[i].accrued_amount(dt(t)));
                    let w = FACE * RATE * time(&m.q, m.ds[i], t);
                    check!((a - w).abs() <= 1e-6, "accrued", "coupon {} to {} has accrued {a} on {}, its time gives {w}", iso(m.ds[i]), iso(m.ds[i + 1]), iso(t));
                }
            }
            c.nontrivial = true;
        }
        c.sig(m.ds.len() as u64 | (m.reg[0] as u64) << 8 | (*m.reg.last().unwrap() as u64) << 9 | (m.q.len() as u64) << 10 | (m.q.iter().position(|&d| d >= t).unwrap_or(99) as u64) << 20 | (sp.len as u64) << 32);
    }
    Ok(())
}
