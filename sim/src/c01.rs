//! C01: calendars under histories of edits delivered over an unreliable feed.
//! Nodes: up to four calendar instances of one market. Network: an edit feed from node 0 that may
//! duplicate, delay, lose (and retransmit) deliveries. Crash: a node loses its calendar and rebuilds
//! it from the durable edit log. Oracle: RefCal.
use crate::cal::*;
use crate::model::*;
use rust_quantlib::datetime::calendar::Calendar;
use rust_quantlib::datetime::timeunit::TimeUnit;
use rust_quantlib::datetime::weekday::Weekday;
use simcore::rng::Rng;
use simcore::{check, ev, fail, Ctx, Res};

#[derive(Clone, Copy, Debug)]
enum Edit {
    Add(i32),
    Remove(i32),
    Reset,
}
fn apply_real(cal: &mut Calendar, e: Edit) {
    match e {
        Edit::Add(s) => cal.add_holiday(dt(s)),
        Edit::Remove(s) => cal.remove_holiday(dt(s)),
        Edit::Reset => cal.reset_added_and_removed_holidays(),
    }
}
fn apply_ref(r: &mut RefCal, e: Edit) {
    match e {
        Edit::Add(s) => {
            r.edits.insert(s, true);
        }
        Edit::Remove(s) => {
            r.edits.insert(s, false);
        }
        Edit::Reset => r.edits.clear(),
    }
}
fn apply(c: &mut Ctx, n: &mut Node, e: Edit) -> Res {
    if let Err(m) = c.catch(|| apply_real(&mut n.cal, e)) {
        fail!("panic", "{} panicked: {m}", show(e));
    }
    apply_ref(&mut n.refc, e);
    Ok(())
}
fn show(e: Edit) -> String {
    match e {
        Edit::Add(s) => format!("add {}", iso(s)),
        Edit::Remove(s) => format!("remove {}", iso(s)),
        Edit::Reset => "reset".into(),
    }
}

struct Node {
    cal: Calendar,
    refc: RefCal,
}

/// The same question, identified by `q`, put to some of the calendars one after the other.
fn query(c: &mut Ctx, nodes: &[Node], who: usize, everyone: bool, lo: i32, hi: i32) -> Res {
    let q = c.below(1 << 40);
    for k in 0..if everyone { nodes.len() } else { 1 } {
        let i = (who + k) % nodes.len();
        question(c, &mut Rng::new(q), &nodes[i].cal, &nodes[i].refc, i, lo, hi)?;
    }
    Ok(())
}

fn question(c: &mut Ctx, p: &mut Rng, cal: &Calendar, r: &RefCal, who: usize, lo: i32, hi: i32) -> Res {
    let a = any_date(p, lo, hi);
    let kind = p.below(12);
    macro_rules! lib {
        ($e:expr) => {
            match c.catch(|| $e) {
                Ok(v) => v,
                Err(m) => fail!("panic", "query {kind} on {} of node {who} panicked: {m}", iso(a)),
            }
        };
    }
    match kind {
        0 => {
            let g = lib!(cal.is_holiday(&dt(a)));
            check!(g != r.biz(a), "is-holiday", "node {who}: is_holiday({}) = {g}, latest edit says {}", iso(a), !r.biz(a));
        }
        1 | 2 => {
            let k = p.idx(CONVS.len());
            let conv = CONVS[k];
            if let Ok(w) = r.adjust(a, conv) {
                let g = lib!(cal.adjust(dt(a), conv)).serial_number();
                ev!(c, "adjust {} {conv:?} -> {}", iso(a), iso(g));
                check!(g == w, "adjust", "node {who}: adjust({}, {conv:?}) = {}, reference {}", iso(a), iso(g), iso(w));
                if k == 0 {
                    let g = lib!(cal.adjust_with_following(dt(a))).serial_number();
                    check!(g == w, "adjust", "node {who}: adjust_with_following({}) = {}, reference {}", iso(a), iso(g), iso(w));
                }
            }
        }
        3 | 4 | 11 => {
            let conv = p.pick(&CONVS);
            let e = p.chance(1, 2);
            let (n, u) = match c.below(4) {
                0 => (p.range(-12, 12), TimeUnit::Days),
                1 => (p.range(-8, 8), TimeUnit::Weeks),
                2 => (p.range(-30, 30), TimeUnit::Months),
                _ => (p.range(-4, 4), TimeUnit::Years),
            };
            let n = n as i32;
            // start where it lands in the edited window
            let a = match u {
                TimeUnit::Days => a,
                TimeUnit::Weeks => a - 7 * n,
                _ if p.chance(1, 2) => a,
                TimeUnit::Months => a - (n as f64 * 30.4375) as i32,
                _ => a - (n as f64 * 365.25) as i32,
            }
            .clamp(MIN + 2000, MAX - 2000);
            if let Ok(w) = r.advance(a, n, u, conv, e) {
                let g = lib!(cal.advance_by_days(dt(a), n, u, conv, e)).serial_number();
                ev!(c, "advance {} {n} {u:?} {conv:?} eom={e} -> {}", iso(a), iso(g));
                check!(g == w, "advance", "node {who}: advance({}, {n} {u:?}, {conv:?}, eom={e}) = {}, reference {}", iso(a), iso(g), iso(w));
                let per = rust_quantlib::datetime::period::Period::new(n, u);
                let g = lib!(cal.advance_by_period(dt(a), per, conv, e)).serial_number();
                check!(g == w, "advance", "node {who}: advance_by_period({}, {n} {u:?}, {conv:?}, eom={e}) = {}, reference {}", iso(a), iso(g), iso(w));
                if conv == CONVS[0] {
                    let g = lib!(cal.advance_by_days_with_following(dt(a), n, u, e)).serial_number();
                    let h = lib!(cal.advance_by_period_with_following(dt(a), per, e)).serial_number();
                    check!(g == w && h == w, "advance", "node {who}: advance..with_following({}, {n} {u:?}, eom={e}) = {} / {}, reference {}", iso(a), iso(g), iso(h), iso(w));
                }
            }
        }
        5 => {
            let b = any_date(p, lo, hi);
            let (a, b) = (a.min(b), a.max(b).min(a.min(b) + 120));
            let w = p.chance(1, 2);
            let g: Vec<i32> = lib!(cal.holiday_list(dt(a), dt(b), w)).iter().map(|d| d.serial_number()).collect();
            let want: Vec<i32> = (a..=b)
                .filter(|&s| !r.biz(s) && (w || !r.base.is_weekend(Weekday::from(wd(s)))))
                .collect();
            check!(g == want, "holiday-list", "node {who}: holiday_list({}, {}, {w}) has {} entries {:?}, reference {} {:?}", iso(a), iso(b), g.len(), diff(&g, &want), want.len(), diff(&want, &g));
        }
        6 => {
            let b = any_date(p, lo, hi);
            let (a, b) = (a.min(b), a.max(b).min(a.min(b) + 120));
            let g: Vec<i32> = lib!(cal.business_day_list(dt(a), dt(b))).iter().map(|d| d.serial_number()).collect();
            let want: Vec<i32> = (a..=b).filter(|&s| r.biz(s)).collect();
            check!(g == want, "business-day-list", "node {who}: business_day_list({}, {}) only library {:?}, only reference {:?}", iso(a), iso(b), diff(&g, &want), diff(&want, &g));
        }
        7 => {
            let b = match p.below(6) {
                0 => a,
                1 => (a + p.range(-1200, 1200) as i32).clamp(MIN + 40, MAX - 40),
                _ => any_date(p, lo, hi),
            };
            let (f, l) = (p.chance(1, 2), p.chance(1, 2));
            let g = lib!(cal.business_days_between(dt(a), dt(b), f, l));
            let w = r.between(a, b, f, l);
            ev!(c, "between {} {} {f} {l} -> {g}", iso(a), iso(b));
            check!(g == w, "business-days-between", "node {who}: business_days_between({}, {}, {f}, {l}) = {g}, reference {w}", iso(a), iso(b));
        }
        8 => {
            if let Ok(w) = r.is_eom(a) {
                let g = lib!(cal.is_end_of_month(&dt(a)));
                check!(g == w, "is-end-of-month", "node {who}: is_end_of_month({}) = {g}, reference {w}", iso(a));
            }
        }
        9 => {
            if let Ok(w) = r.eom(a) {
                let g = lib!(cal.end_of_month(&dt(a))).serial_number();
                check!(g == w, "end-of-month", "node {who}: end_of_month({}) = {}, reference {}", iso(a), iso(g), iso(w));
            }
        }
        _ => {
            let mut g: Vec<i32> = cal.added_holidays().iter().map(|d| d.serial_number()).collect();
            let mut h: Vec<i32> = cal.removed_holidays().iter().map(|d| d.serial_number()).collect();
            g.sort();
            h.sort();
            let wg: Vec<i32> = r.edits.iter().filter(|(&s, &x)| x && r.base_biz(s)).map(|x| *x.0).collect();
            let wh: Vec<i32> = r.edits.iter().filter(|(&s, &x)| !x && !r.base_biz(s)).map(|x| *x.0).collect();
            check!(g == wg, "added-set", "node {who}: added_holidays only library {:?}, only reference {:?}", diff(&g, &wg), diff(&wg, &g));
            check!(h == wh, "removed-set", "node {who}: removed_holidays only library {:?}, only reference {:?}", diff(&h, &wh), diff(&wh, &h));
            for d in 1..=7 {
                let w = Weekday::from(d);
                check!(cal.is_weekend(w) == r.base.is_weekend(w), "is-weekend", "node {who}: is_weekend({w:?}) changed by an edit");
            }
            check!(cal.name() == r.base.name(), "name", "node {who}: name changed");
        }
    }
    Ok(())
}
fn diff(a: &[i32], b: &[i32]) -> Vec<String> {
    a.iter().filter(|x| !b.contains(x)).take(5).map(|&x| iso(x)).collect()
}

fn sweep(c: &mut Ctx, n: &Node, who: usize, lo: i32, hi: i32) -> Res {
    for s in lo..=hi {
        let g = match c.catch(|| n.cal.is_holiday(&dt(s))) {
            Ok(g) => g,
            Err(m) => fail!("panic", "is_holiday({}) panicked: {m}", iso(s)),
        };
        check!(g != n.refc.biz(s), "is-holiday", "node {who}: is_holiday({}) = {g}, latest edit says {}", iso(s), !n.refc.biz(s));
        if !n.refc.edits.contains_key(&s) && n.refc.base.is_weekend(Weekday::from(wd(s))) {
            check!(g, "weekend", "node {who}: {}, a weekend day nobody edited, is a business day", iso(s));
        }
    }
    let g: Vec<i32> = match c.catch(|| n.cal.business_day_list(dt(lo), dt(hi))) {
        Ok(v) => v.iter().map(|d| d.serial_number()).collect(),
        Err(m) => fail!("panic", "business_day_list panicked: {m}"),
    };
    let want: Vec<i32> = (lo..=hi).filter(|&s| n.refc.biz(s)).collect();
    check!(g == want, "business-day-list", "node {who}: business_day_list({}, {}) only library {:?}, only reference {:?}", iso(lo), iso(hi), diff(&g, &want), diff(&want, &g));
    Ok(())
}

pub fn run(c: &mut Ctx) -> Res {
    let m = c.idx(N_MARKETS);
    let span = c.pick(&[40i32, 12, 100, 5]);
    let lo = c.range(ser(1901, 3, 1) as i64, ser(2199, 3, 1) as i64) as i32;
    let lo = any_date(c, lo, lo + 30);
    let hi = lo + span;
    let nn = 1 + c.idx(4);
    // swarm: which faults this run may inject
    let (f_dup, f_lose, f_delay, f_crash, f_copy, f_twin) =
        (c.chance(1, 2), c.chance(1, 2), c.chance(1, 2), c.chance(1, 2), c.chance(1, 2), c.chance(1, 2));
    let reset_rate = c.pick(&[0u64, 5, 20]);
    ev!(c, "market {} window {}..{} nodes {nn}", market(m).name(), iso(lo), iso(hi));
    let mut nodes: Vec<Node> = (0..nn).map(|_| Node { cal: market(m), refc: RefCal::new(m) }).collect();
    // the durable edit log of node 0, and per replica: position delivered so far
    let mut log: Vec<Edit> = vec![];
    let mut pos = vec![0usize; nn];
    // a replica that has local edits of its own leaves the feed
    let mut detached = vec![false; nn];
    let ops = 5 + c.tail(if c.thorough { 60 } else { 30 });
    let mut edits = 0;
    for _ in 0..ops {
        match c.below(10) {
            0..=4 => {
                // edit at the primary (or a local edit at a detached node)
                let i = if c.chance(1, 5) { c.idx(nn) } else { 0 };
                // a run of consecutive dates, a single date, or a re-edit of an already edited date
                let known: Vec<i32> = nodes[i].refc.edits.keys().copied().collect();
                let s = if !known.is_empty() && c.chance(2, 5) { known[c.idx(known.len())] } else { any_date(c, lo, hi) };
                let len = c.pick(&[1i32, 1, 1, 2, 4, 12, 33]);
                let add = c.chance(3, 5);
                let batch: Vec<Edit> = if c.below(100) < reset_rate {
                    vec![Edit::Reset]
                } else {
                    (0..len).map(|k| if add { Edit::Add(s + k) } else { Edit::Remove(s + k) }).collect()
                };
                ev!(c, "node {i}: {} x{}", show(batch[0]), batch.len());
                for e in batch {
                    apply(c, &mut nodes[i], e)?;
                    if i == 0 { log.push(e) } else { detached[i] = true }
                    edits += 1;
                }
            }
            5 | 6 if nn > 1 => {
                // deliver part of the feed to a replica
                let i = 1 + c.idx(nn - 1);
                if detached[i] || pos[i] >= log.len() {
                    continue;
                }
                if f_delay && c.chance(1, 3) {
                    c.fault("edit-delivery-delayed");
                    continue;
                }
                let k = 1 + c.idx(log.len() - pos[i]);
                let mut from = pos[i];
                if f_dup && c.chance(1, 2) && from > 0 {
                    from -= 1 + c.idx(from.min(6));
                    c.fault("edits-redelivered");
                }
                let to = pos[i] + k;
                if f_lose && c.chance(1, 3) {
                    // the tail of the message is lost: only a prefix arrives, and is retransmitted later
                    c.fault("delivery-truncated");
                    let cut = from + c.idx(to - from);
                    for e in &log[from..cut] {
                        apply(c, &mut nodes[i], *e)?;
                    }
                    pos[i] = pos[i].max(cut);
                    // redelivery of an older prefix may have rolled dates back: catch up in order
                    let p = pos[i];
                    for e in &log[cut.min(p)..p] {
                        apply(c, &mut nodes[i], *e)?;
                    }
                } else {
                    for e in &log[from..to] {
                        apply(c, &mut nodes[i], *e)?;
                    }
                    pos[i] = to;
                }
                ev!(c, "deliver to node {i} [{from}..{to}) pos {}", pos[i]);
            }
            7 if f_crash => {
                let i = c.idx(nn);
                if detached[i] {
                    continue;
                }
                c.fault("crash-and-rebuild-from-log");
                let upto = if i == 0 { log.len() } else { pos[i] };
                nodes[i] = Node { cal: market(m), refc: RefCal::new(m) };
                for e in &log[..upto] {
                    apply(c, &mut nodes[i], *e)?;
                }
                ev!(c, "crash node {i}, rebuilt from {upto} log entries");
                let n = &nodes[i];
                sweep(c, n, i, lo, hi)?;
            }
            8 if f_copy && nn > 1 => {
                let (i, j) = (c.idx(nn), c.idx(nn));
                if i != j && j != 0 {
                    c.fault("node-replaced-by-copy");
                    nodes[j].cal = nodes[i].cal.clone();
                    nodes[j].refc = nodes[i].refc.clone();
                    pos[j] = if i == 0 { log.len() } else { pos[i] };
                    detached[j] = detached[i];
                    ev!(c, "node {j} := copy of node {i}");
                }
            }
            9 if f_twin && nn > 1 => {
                // two calendars that had equally many edits, but not the same ones
                let (i, j) = (c.idx(nn), 1 + c.idx(nn - 1));
                let known: Vec<(i32, bool)> = nodes[i].refc.edits.iter().map(|x| (*x.0, *x.1)).collect();
                if i != j && !known.is_empty() {
                    c.fault("node-replaced-by-twin");
                    nodes[j].cal = nodes[i].cal.clone();
                    nodes[j].refc = nodes[i].refc.clone();
                    detached[j] = true;
                    let (s, added) = c.pick(&known);
                    let s2 = any_date(c, lo, hi);
                    ev!(c, "node {j} := twin of node {i}, {} for {}", iso(s2), iso(s));
                    apply(c, &mut nodes[j], if added { Edit::Remove(s) } else { Edit::Add(s) })?;
                    apply(c, &mut nodes[j], if added { Edit::Add(s2) } else { Edit::Remove(s2) })?;
                }
            }
            _ => {}
        }
        let i = c.idx(nn);
        let everyone = c.chance(1, 3);
        query(c, &nodes, i, everyone, lo, hi)?;
        let st = nodes[i].refc.edits.iter().fold(m as u64, |h, (s, x)| simcore::rng::mix(h ^ ((*s as u64) << 1) ^ *x as u64));
        c.sig(st);
    }
    // faults stop: every attached replica catches up, and all of them agree with node 0
    for i in 1..nn {
        if !detached[i] {
            for e in &log[pos[i]..] {
                apply(c, &mut nodes[i], *e)?;
            }
            check!(nodes[i].refc.edits == nodes[0].refc.edits, "harness-model", "model replicas diverged");
        }
    }
    for i in 0..nn {
        let n = &nodes[i];
        sweep(c, n, i, lo - 2, hi + 35)?;
        for _ in 0..4 {
            query(c, &nodes, i, false, lo, hi)?;
        }
    }
    for _ in 0..4 {
        query(c, &nodes, 0, true, lo, hi)?;
    }
    if nodes.iter().any(|n| n.refc.edits.iter().any(|(&s, &h)| h == n.refc.base_biz(s))) {
        c.probe("effective-edit");
    }
    if (0..nn).any(|i| (lo..=hi).filter(|&s| !nodes[i].refc.biz(s)).count() >= 28) {
        c.probe("long-holiday-run");
    }
    c.sim_days(span as u64);
    c.nontrivial = edits > 0;
    Ok(())
}
