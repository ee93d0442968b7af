//! C19: a desk keeps its own calendars and edits them all day. Schedules, legs and bonds are built in
//! between, from the calendars as they are at that moment; edits, copies, resets and rebuilds that come
//! later must not reach them, and edits that came earlier must, in every use of a calendar.
use crate::bonds::*;
use crate::cal::*;
use crate::gen::*;
use crate::leg::*;
use crate::model::*;
use crate::sch::*;
use rust_quantlib::cashflows::cashflow::CashFlow;
use rust_quantlib::cashflows::fixedratecoupon::FixedRateCoupon;
use rust_quantlib::datetime::calendar::Calendar;
use rust_quantlib::datetime::schedule::Schedule;
use rust_quantlib::instruments::bond::Bond;
use simcore::{check, ev, Ctx, Res};
use std::collections::BTreeSet;

enum Thing {
    Schedule(Spec, Schedule, Sch),
    Leg(LegSpec, Vec<FixedRateCoupon>, Vec<Cpn>),
    Bond(BondSpec, Box<dyn Bond>, RefBond),
}
struct Book {
    thing: Thing,
    /// the desk's calendars as they were: length of the edit log
    logged: usize,
    evaluated: i32,
}
/// One entry of the desk's edit log.
#[derive(Clone, Copy, Debug)]
enum Edit {
    Add(usize, i32),
    Remove(usize, i32),
    Reset(usize),
    Copy(usize, usize),
}

fn apply(e: Edit) {
    let k = match e {
        Edit::Add(k, _) | Edit::Remove(k, _) | Edit::Reset(k) | Edit::Copy(_, k) => k,
    };
    let (mut l, mut r) = desk(k);
    match e {
        Edit::Add(_, s) => {
            l.add_holiday(dt(s));
            r.edits.insert(s, true);
        }
        Edit::Remove(_, s) => {
            l.remove_holiday(dt(s));
            r.edits.insert(s, false);
        }
        Edit::Reset(_) => {
            l.reset_added_and_removed_holidays();
            r.edits.clear();
        }
        Edit::Copy(from, _) => (l, r) = desk(from),
    }
    set_desk(k, l, r);
}
fn open_desk(markets: &[usize], log: &[Edit]) {
    for (k, &m) in markets.iter().enumerate() {
        set_desk(k, market(m), RefCal::new(m));
    }
    for &e in log {
        apply(e);
    }
}
/// Dates the object hangs on: where an edit would move something.
fn dates_of(t: &Thing, out: &mut BTreeSet<i32>) {
    match t {
        Thing::Schedule(sp, _, (ds, _)) => {
            out.extend(ds);
            out.extend([sp.effective, sp.term]);
        }
        Thing::Leg(_, _, cs) => out.extend(cs.iter().flat_map(|x| [x.start, x.end, x.pay, x.ex])),
        Thing::Bond(_, _, r) => out.extend(r.flows.iter().map(|f| f.date())),
    }
    out.remove(&0);
}

fn unedited(sp: &mut Spec, m: usize) {
    sp.market = m;
    sp.n_edits = 0;
    sp.closed = (0, 0);
}

fn build(thing: u64, c: &mut Ctx, n: usize, lo: i32, hi: i32, eval: i32) -> Res<Option<Thing>> {
    let mine = |c: &mut Ctx| DESK + c.idx(n);
    match thing {
        0 | 1 => {
            let mut sp = Spec::draw(c, lo, hi, 1);
            unedited(&mut sp, mine(c));
            let Ok(Some(w)) = sp.reference(&sp.calendar().1) else { return Ok(None) };
            let s = lib!(c, sp.lib(eval));
            Ok(Some(Thing::Schedule(sp, s, w)))
        }
        2 | 3 => {
            let mut ls = LegSpec::draw(c, lo, hi, 0);
            unedited(&mut ls.sp, mine(c));
            ls.pay_market = if c.chance(2, 3) { Some(mine(c)) } else { None };
            if let Some(x) = &mut ls.ex {
                x.2 = mine(c);
            }
            let Ok(Some(w)) = ls.reference() else { return Ok(None) };
            let l = lib!(c, ls.lib(eval));
            Ok(Some(Thing::Leg(ls, l, w)))
        }
        _ => {
            let mut b = BondSpec::draw(c, &[100.0]);
            let m = mine(c);
            match &mut b.kind {
                Kind::Fixed(l, _) => {
                    let term = l.sp.term - l.sp.effective;
                    l.sp.effective = c.range(lo as i64, lo as i64 + 300) as i32;
                    l.sp.term = (l.sp.effective + term).min(hi);
                    (l.sp.first, l.sp.ntl) = (0, 0);
                    unedited(&mut l.sp, m);
                    l.pay_market = if c.chance(1, 2) { Some(mine(c)) } else { None };
                    if let Some(x) = &mut l.ex {
                        x.2 = mine(c);
                    }
                }
                Kind::Zero { market, maturity, .. } => {
                    *market = m;
                    *maturity = c.range(lo as i64 + 100, hi as i64) as i32;
                }
                Kind::Stepped(..) => return Ok(None),
            }
            b.issue = if c.chance(1, 2) { 0 } else { lo };
            let Ok(Some(w)) = b.reference() else { return Ok(None) };
            if w.flows.iter().any(|f| c.catch(|| f.amount()).is_err()) {
                return Ok(None);
            }
            let l = lib!(c, b.lib(eval));
            Ok(Some(Thing::Bond(b, l, w)))
        }
    }
}

fn same_calendar(c: &mut Ctx, got: &Calendar, want: &RefCal, around: i32, who: &str) -> Res {
    for s in around - 4..=around + 4 {
        let h = lib!(c, got.is_holiday(&dt(s)));
        check!(h != want.biz(s), "calendar-moved", "{who}: {} is a holiday = {h} for its calendar, when it was built it was {}", iso(s), !want.biz(s));
    }
    let eff = |m: bool| -> BTreeSet<i32> { want.edits.iter().filter(|(s, h)| **h == m && want.base_biz(**s) == m).map(|(s, _)| *s).collect() };
    let (a, r): (BTreeSet<i32>, BTreeSet<i32>) =
        (got.added_holidays().iter().map(|d| d.serial_number()).collect(), got.removed_holidays().iter().map(|d| d.serial_number()).collect());
    check!(a == eff(true) && r == eff(false), "calendar-moved", "{who}: its calendar has {} added and {} removed days, when it was built {} and {}", a.len(), r.len(), eff(true).len(), eff(false).len());
    Ok(())
}

fn audit(c: &mut Ctx, b: &Book, t: i32) -> Res {
    match &b.thing {
        Thing::Schedule(sp, s, (ds, reg)) => {
            let got: Vec<i32> = s.dates().iter().map(|d| d.serial_number()).collect();
            let show = |v: &[i32]| v.iter().map(|x| iso(*x)).collect::<Vec<_>>();
            check!(got == *ds, "schedule", "schedule {:?} {:?} {} to {} has {:?}, the calendar it was built with gives {:?}", sp.rule, sp.tenor(), iso(sp.effective), iso(sp.term), show(&got), show(ds));
            let fl: Vec<bool> = (1..s.size()).map(|i| s.is_regular(i)).collect();
            check!(fl == *reg, "schedule", "schedule from {} has period flags {fl:?}, expected {reg:?}", iso(sp.effective));
            let i = lib!(c, s.next_date(&dt(t)));
            let w = ds.iter().copied().find(|&d| d >= t).unwrap_or(0);
            // (stub dates can be out of order; then there is no telling)
            check!(s0(i) == w || ds.windows(2).any(|w| w[0] > w[1]), "schedule", "next date from {} is {}, expected {}", iso(t), iso(s0(i)), iso(w));
        }
        Thing::Leg(ls, l, w) => {
            check!(l.len() == w.len(), "leg", "{} coupons for {} periods", l.len(), w.len());
            for (i, (g, w)) in l.iter().zip(w).enumerate() {
                let got = [g.accrual_start_date(), g.accrual_end_date(), CashFlow::date(g), g.ex_coupon_date(), g.reference_period_start(), g.reference_period_end()].map(s0);
                let want = [w.start, w.end, w.pay, w.ex, w.ref_a, w.ref_b];
                check!(got == want, "leg", "coupon {i} (start, end, paid, ex, reference) is {:?}, the calendars it was built with give {:?} (lag {:?} ex {:?})", got.map(iso), want.map(iso), ls.lag, ls.ex);
            }
        }
        Thing::Bond(spec, l, r) => {
            let got: Vec<i32> = l.cashflows().iter().map(|f| s0(f.date())).collect();
            let want: Vec<i32> = r.flows.iter().map(|f| f.date()).collect();
            check!(got == want, "bond", "bond pays on {:?}, the calendars it was built with give {:?}", got.iter().map(|x| iso(*x)).collect::<Vec<_>>(), want.iter().map(|x| iso(*x)).collect::<Vec<_>>());
            if let Ok(w) = spec.settlement(&r.cal, t) {
                let s = s0(lib!(c, l.settlement_date(d0(t))));
                check!(s == w, "settlement", "trade on {} settles {}, T+{} on the calendar it was built with is {} (issue {})", iso(t), iso(s), spec.days, iso(w), spec.issue);
                c.probe("settled");
            }
            let n = lib!(c, l.notional(d0(t)));
            check!(close(n, r.notional(spec.face, t), 100.0), "bond", "notional on {} is {n}", iso(t));
        }
    }
    Ok(())
}

pub fn run(c: &mut Ctx) -> Res {
    let n = 1 + c.idx(2);
    let markets: Vec<usize> = (0..n).map(|_| c.idx(N_MARKETS)).collect();
    let lo = any_date(c, ser(1930, 1, 1), ser(2140, 1, 1));
    let hi = lo + 2000 + c.range(0, 1500) as i32;
    let mut log: Vec<Edit> = vec![];
    open_desk(&markets, &log);
    ev!(c, "calendars of markets {markets:?}, business from {}", iso(lo));
    let mut books: Vec<Book> = vec![];
    let mut hot: BTreeSet<i32> = BTreeSet::new();
    let mut late: Option<Edit> = None;
    let (f_dup, f_late, f_crash, f_reset) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 2), c.chance(1, 3));
    let steps = 8 + c.tail(if c.thorough { 40 } else { 16 });
    let mut edits_after = false;
    for _ in 0..steps {
        match c.below(8) {
            0 | 1 | 2 => {
                let k = c.idx(n);
                let near = if !hot.is_empty() && c.chance(4, 5) {
                    let i = c.idx(hot.len());
                    *hot.iter().nth(i).unwrap()
                } else {
                    c.range(lo as i64, hi as i64) as i32
                };
                let s = (near + c.range(-3, 3) as i32).clamp(MIN + 40, MAX - 40);
                let e = match c.below(10) {
                    0 if f_reset => Edit::Reset(k),
                    1 if n > 1 => Edit::Copy(1 - k, k),
                    2 | 3 | 4 => Edit::Remove(k, s),
                    _ => Edit::Add(k, s),
                };
                // a day and the days after it: a closure
                let run = if matches!(e, Edit::Add(..)) && c.chance(1, 4) { c.pick(&[2, 5, 12]) } else { 1 };
                for i in 0..run {
                    let e = match e {
                        Edit::Add(k, s) => Edit::Add(k, s + i),
                        x => x,
                    };
                    if f_late && late.is_none() && c.chance(1, 6) {
                        c.fault("edit-delivered-late");
                        late = Some(e);
                        continue;
                    }
                    ev!(c, "{e:?}");
                    log.push(e);
                    apply(e);
                    if f_dup && c.chance(1, 6) && !matches!(e, Edit::Copy(..)) {
                        c.fault("edit-delivered-twice");
                        log.push(e);
                        apply(e);
                    }
                }
                edits_after = !books.is_empty();
                if c.chance(1, 3) {
                    if let Some(e) = late.take() {
                        ev!(c, "late {e:?}");
                        log.push(e);
                        apply(e);
                    }
                }
            }
            3 | 4 => {
                let what = c.below(6);
                let eval = c.range(lo as i64, hi as i64) as i32;
                if let Some(thing) = build(what, c, n, lo, hi + 2000, eval)? {
                    ev!(c, "built {} on {} edits", ["schedule", "leg", "bond"][match thing { Thing::Schedule(..) => 0, Thing::Leg(..) => 1, _ => 2 }], log.len());
                    dates_of(&thing, &mut hot);
                    if !log.is_empty() {
                        c.probe("built-on-edited-calendar");
                    }
                    books.push(Book { thing, logged: log.len(), evaluated: eval });
                    let t = c.range(lo as i64 - 30, hi as i64) as i32;
                    audit(c, books.last().unwrap(), t)?;
                }
            }
            5 if f_crash && !books.is_empty() => {
                // everything in memory is lost; one object is rebuilt from the log as of its building
                c.fault("rebuild-from-log");
                let i = c.idx(books.len());
                open_desk(&markets, &log[..books[i].logged]);
                let eval = books[i].evaluated;
                match &mut books[i].thing {
                    Thing::Schedule(sp, s, _) => *s = lib!(c, sp.lib(eval)),
                    Thing::Leg(ls, l, _) => *l = lib!(c, ls.lib(eval)),
                    Thing::Bond(b, l, _) => *l = lib!(c, b.lib(eval)),
                }
                open_desk(&markets, &log);
                ev!(c, "book {i} rebuilt");
                let t = c.range(lo as i64 - 30, hi as i64) as i32;
                audit(c, &books[i], t)?;
            }
            6 if !books.is_empty() => {
                // a cut schedule rolls on the same calendar, and so does a schedule's own copy
                let i = c.idx(books.len());
                if let Thing::Schedule(sp, s, (ds, _)) = &books[i].thing {
                    let copy = s.clone();
                    let logged = books[i].logged;
                    let mid = ds[ds.len() / 2] + c.pick(&[0, 0, 1, -1, 9, -9]);
                    let cut = if ds.len() > 2 && mid > ds[0] && mid < ds[ds.len() - 1] && c.chance(1, 2) {
                        let at = &dt(mid);
                        let head = c.chance(1, 2);
                        lib!(c, if head { copy.after(at) } else { copy.until(at) })
                    } else {
                        copy
                    };
                    let k = sp.market - DESK;
                    let t = ds[c.idx(ds.len())];
                    open_desk(&markets, &log[..logged]);
                    let then = desk(k).1;
                    open_desk(&markets, &log);
                    same_calendar(c, s.calendar(), &then, t, "a schedule")?;
                    same_calendar(c, cut.calendar(), &then, t, "its copy")?;
                    c.probe("calendar-of-a-copy");
                }
            }
            _ => {
                for b in &books {
                    let t = if !hot.is_empty() && c.chance(2, 3) {
                        let i = c.idx(hot.len());
                        *hot.iter().nth(i).unwrap() + c.range(-6, 2) as i32
                    } else {
                        c.range(lo as i64 - 30, hi as i64) as i32
                    };
                    audit(c, b, t)?;
                }
                // the desk's own calendars are what the log made them
                let k = c.idx(n);
                let (l, r) = desk(k);
                let t = c.range(lo as i64, hi as i64) as i32;
                same_calendar(c, &l, &r, t, "the desk's calendar")?;
            }
        }
        c.sim_days(1);
        c.sig(books.len() as u64 | (log.len() as u64) << 8 | (hot.len() as u64) << 20);
    }
    for b in &books {
        let t = c.range(lo as i64 - 30, hi as i64) as i32;
        audit(c, b, t)?;
    }
    if edits_after {
        c.probe("edited-after-building");
    }
    c.nontrivial = !books.is_empty() && !log.is_empty();
    Ok(())
}
