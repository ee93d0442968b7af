//! C03: any question to the library has one answer - whoever asked what before, whoever is asking at
//! the same time, on a new or a long-used object, whatever the wall clock, the hash seeds and the
//! time zone, and whatever failed in between.
use crate::model::Draw;
use crate::ops::*;
use simcore::iso::isolated;
use simcore::rng::mix;
use simcore::sched::{run_threads, Opts};
use simcore::seams::{self, cur, harness, Injected};
use simcore::{check, ev, Ctx, Res};
use std::cell::RefCell;

#[derive(Clone, Copy, Debug)]
struct Q {
    kind: usize,
    obj: u64,
    q: u64,
    /// where the object comes from: a slot of the caller's pool, or new
    slot: usize,
    fresh: bool,
    fail_first: bool,
}

fn answer(q: &Q) -> String {
    make(q.kind, q.obj)(q.q)
}

pub fn run(c: &mut Ctx) -> Res {
    let nt = 1 + c.idx(4);
    // few objects and few questions, so that they meet
    let n_obj = 1 + c.idx(4);
    let same_kind = c.chance(1, 2);
    // (calendars, edited by their owners, are asked about more often)
    let kind = |c: &mut Ctx| if c.chance(1, 5) { 0 } else { c.idx(N_KINDS) };
    let k0 = kind(c);
    // ... and are alike: seeds with the same high bits share most terms
    let alike = c.chance(2, 3);
    let o0 = c.below(1 << 24) << 16;
    let objs: Vec<(usize, u64)> = (0..n_obj)
        .map(|i| (if same_kind { k0 } else { kind(c) }, if alike { o0 + i as u64 } else { c.below(1 << 24) << 16 }))
        .collect();
    let n_q = 1 + c.tail(if c.thorough { 8 } else { 5 });
    let q0 = c.below(1 << 24) << 16;
    let asked: Vec<u64> = (0..n_q).map(|i| if alike { q0 + i as u64 } else { c.below(1 << 24) << 16 }).collect();
    let pool: Vec<(usize, u64)> = (0..2 + c.tail(9)).map(|_| (c.idx(n_obj), c.pick(&asked))).collect();
    let mut jobs: Vec<Vec<Q>> = vec![];
    for _ in 0..nt {
        let n = 2 + c.tail(8);
        // one question after another, or each question to all objects in turn
        let in_turn = c.chance(1, 2);
        let mut last = c.pick(&pool);
        jobs.push((0..n).map(|i| {
            if in_turn && i % n_obj != 0 {
                last.0 = (last.0 + 1) % n_obj;
            } else {
                last = c.pick(&pool);
            }
            let (s, q) = last;
            Q { kind: objs[s].0, obj: objs[s].1, q, slot: s, fresh: c.chance(1, 3), fail_first: c.chance(1, 8) }
        }).collect());
    }
    // the answers, each from a process in which nothing else ever happened
    let mut want: Vec<Vec<String>> = vec![];
    let mut memo: std::collections::BTreeMap<(usize, u64), String> = Default::default();
    for j in &jobs {
        want.push(j.iter().map(|q| memo.entry((q.slot, q.q)).or_insert_with(|| isolated(|| answer(q))).clone()).collect());
    }
    // another day, other hash seeds, another time zone
    let k = seams::clock();
    if c.chance(3, 4) {
        c.fault("clock-elsewhere");
        k.real_ns = c.range(0, 7_000_000_000) as i128 * 1_000_000_000;
        k.tick_ns = c.pick(&[0i128, 1, 3_600_000_000_000, 86_400_000_000_000]);
    }
    if c.chance(3, 4) {
        c.fault("hash-seeds-changed");
        let s = c.below(u64::MAX);
        unsafe { seams::HASH_SEED = s };
    }
    if c.chance(1, 2) {
        c.fault("time-zone-changed");
        std::env::set_var("TZ", c.pick(&["<+14>-14", "<-12>12", "EST5EDT"]));
    }
    let got: Vec<RefCell<Vec<String>>> = jobs.iter().map(|_| Default::default()).collect();
    let o = Opts { quantum: c.pick(&[40, 5, 400, 3000]), stall_den: c.pick(&[0, 8]), max_preemptions: 400 };
    let n_slots = objs.len();
    let fs: Vec<Box<dyn FnOnce() + '_>> = jobs
        .iter()
        .zip(&got)
        .map(|(j, g)| {
            Box::new(move || {
                let mut held: Vec<Option<Obj>> = (0..n_slots).map(|_| None).collect();
                for q in j {
                    if q.fail_first && mix(q.q ^ 5) % 2 == 0 {
                        // ... or asks what is refused
                        cur().fault("refused-half-way");
                        mishap(mix(q.q ^ 9));
                    } else if q.fail_first {
                        // a caller's own code fails in the middle of a call
                        let n = std::cell::Cell::new(0);
                        let h = mix(q.q);
                        let s = crate::solv::Cfg { kind: (h >> 1) as usize % 3, lo: 0.0, hi: 0.0, lo_on: false, hi_on: false, max: 100 }.make();
                        let f = |x: f64| harness(|| {
                            n.set(n.get() + 1);
                            if n.get() == 1 + (h >> 8) % 7 {
                                std::panic::panic_any(Injected(n.get()))
                            }
                            x * x * x - 3.0
                        });
                        cur().fault("callback-panic");
                        let d = |x: f64| 3.0 * x * x;
                        let _ = seams::catch(|| if h & 1 == 0 { s.guess(&f, &d, 1e-10, 0.3, 0.1) } else { s.bracket(&f, &d, 1e-10, 1.0, 0.2, 3.0) });
                    }
                    let a = if q.fresh {
                        held[q.slot] = None; // the next object may well sit at the same address
                        answer(q)
                    } else {
                        let o = held[q.slot].get_or_insert_with(|| make(q.kind, q.obj));
                        o(q.q)
                    };
                    g.borrow_mut().push(a);
                }
            }) as Box<dyn FnOnce() + '_>
        })
        .collect();
    run_threads(o, fs);
    for (i, j) in jobs.iter().enumerate() {
        let g = got[i].borrow();
        for (n, q) in j.iter().enumerate() {
            let (g, w) = (&g[n], &want[i][n]);
            ev!(c, "caller {i}: {} {:x}/{:x} -> {:.60}", NAMES[q.kind], q.obj, q.q, g);
            c.probe(if w.starts_with("refused") { "refused" } else { "answered" });
            check!(g == w, "different-answer", "caller {i} of {nt}, question {n} to a {} ({}): {g}; asked alone in a fresh process: {w}", NAMES[q.kind], if q.fresh { "new object" } else { "object in use" });
        }
    }
    c.sig((k0 as u64) ^ (nt as u64) << 8 ^ (n_obj as u64) << 16);
    c.nontrivial = nt > 1 || jobs[0].len() > 1;
    Ok(())
}
