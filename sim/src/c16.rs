//! C16: positions are valued from live quotes that move, stall and fail while being read. Every value
//! is one the quote really held during the call; a failure is the caller's failure only, and nothing
//! of it, nor of an earlier value, is left for the next call.
use crate::model::Draw;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::instruments::instrument::{Instrument, InstrumentResults};
use rust_quantlib::instruments::stock::Stock;
use rust_quantlib::quotes::quote::Quote;
use rust_quantlib::quotes::simplequote::SimpleQuote;
use simcore::sched::{run_threads, yield_now, Opts};
use simcore::seams::{catch, cur, harness, Injected};
use simcore::{check, ev, Ctx, Res};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;

/// Every value the feed ever published, in order; the last one is current.
struct Feed {
    published: RefCell<Vec<f64>>,
    fail_next: Cell<u32>,
    stall: Cell<u32>,
    valid: Cell<bool>,
    reads: Cell<u64>,
}
impl Feed {
    fn publish(&self, v: f64) {
        self.published.borrow_mut().push(v);
    }
    fn version(&self) -> usize {
        self.published.borrow().len() - 1
    }
}
struct Live(Rc<Feed>);
impl Quote for Live {
    fn value(&self) -> f64 {
        harness(|| {
            let f = &self.0;
            f.reads.set(f.reads.get() + 1);
            if f.fail_next.get() > 0 {
                f.fail_next.set(f.fail_next.get() - 1);
                cur().fault("quote-fails");
                std::panic::panic_any(Injected(7));
            }
            let v = *f.published.borrow().last().unwrap();
            for _ in 0..f.stall.get() {
                cur().fault("quote-stalls");
                yield_now();
            }
            v
        })
    }
    fn is_valid(&self) -> bool {
        harness(|| self.0.valid.get())
    }
}
// the scheduler runs one caller at a time; the feed is never touched in parallel
unsafe impl Send for Live {}
unsafe impl Sync for Live {}

/// A user's own instrument: worth a multiple of the quote.
struct Position {
    quote: Live,
    units: f64,
}
impl Instrument for Position {
    fn perform_calculations(&self) -> InstrumentResults {
        InstrumentResults { npv: self.units * self.quote.value(), error_estimate: 0.25, valuation_date: Date::from_serial(40_000) }
    }
}
struct Read {
    who: usize,
    via: u64,
    from: usize,
    to: usize,
    got: Result<(f64, f64, i32), String>,
}

pub fn run(c: &mut Ctx) -> Res {
    let nf = 1 + c.idx(3);
    let start: Vec<f64> = (0..nf).map(|_| c.real(-5.0, 300.0)).collect();
    let feeds: Vec<Rc<Feed>> = start
        .iter()
        .map(|v| Rc::new(Feed { published: RefCell::new(vec![*v]), fail_next: Cell::new(0), stall: Cell::new(0), valid: Cell::new(true), reads: Cell::new(0) }))
        .collect();
    let mut inst: Vec<(Box<dyn Instrument>, usize, f64)> = vec![];
    let n_inst = nf + c.idx(3);
    for i in 0..n_inst {
        let k = if i < nf { i } else { c.idx(nf) };
        let stock = c.chance(2, 3);
        let units = if stock { 1.0 } else { c.pick(&[2.0, -1.0, 0.5]) };
        let b: Box<dyn Instrument> = if stock { Box::new(Stock::new(Arc::new(Live(feeds[k].clone())))) } else { Box::new(Position { quote: Live(feeds[k].clone()), units }) };
        inst.push((b, k, units));
    }
    let nt = 1 + c.idx(3);
    let (f_fail, f_stall, f_odd) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 3));
    // each caller: 0 publishes, 1.. reads
    let plans: Vec<Vec<(u64, usize, f64, u64)>> = (0..nt)
        .map(|_| {
            let n = 3 + c.tail(10);
            (0..n)
                .map(|_| {
                    let v = if f_odd && c.chance(1, 6) { c.pick(&[0.0, f64::INFINITY, 1e-300, -0.0, f64::NAN, f64::NEG_INFINITY, -f64::NAN, 5e-324, f64::MIN, f64::MAX]) } else { c.real(-5.0, 300.0) };
                    (c.below(6), c.idx(16), v, c.below(4))
                })
                .collect()
        })
        .collect();
    let log: RefCell<Vec<Read>> = Default::default();
    let (feedsr, instr, logr) = (&feeds, &inst, &log);
    let fs: Vec<Box<dyn FnOnce() + '_>> = plans
        .iter()
        .map(|plan| {
            Box::new(move || {
                for &(what, k, v, extra) in plan {
                    let f = &feedsr[k % nf];
                    match what {
                        0 | 1 => f.publish(v),
                        2 => {
                            if f_fail && extra == 0 {
                                f.fail_next.set(1 + (k as u32 & 1));
                            }
                            if f_stall {
                                f.stall.set(extra as u32);
                            }
                            if extra == 3 {
                                f.valid.set(!f.valid.get());
                            }
                        }
                        _ => {
                            let who = k % n_inst;
                            let (i, k, _) = &instr[who];
                            let from = feedsr[*k].version();
                            let via = extra % 3;
                            let got = catch(|| match via {
                                0 => (i.npv(), f64::NAN, 0),
                                1 => {
                                    let r = i.calculate();
                                    (r.npv, r.error_estimate, r.valuation_date.serial_number())
                                }
                                _ => {
                                    let r = i.perform_calculations();
                                    (r.npv, r.error_estimate, r.valuation_date.serial_number())
                                }
                            });
                            logr.borrow_mut().push(Read { who, via, from, to: feedsr[*k].version(), got });
                        }
                    }
                }
            }) as Box<dyn FnOnce() + '_>
        })
        .collect();
    run_threads(Opts { quantum: c.pick(&[2, 8, 40]), stall_den: c.pick(&[0, 5]), max_preemptions: 200 }, fs);
    // afterwards, once the faults stop, the next call shows the current value
    for f in &feeds {
        f.fail_next.set(0);
        f.stall.set(0);
    }
    let check_one = |c: &mut Ctx, r: &Read, when: &str| -> Res {
        let (_, k, units) = &inst[r.who];
        let pub_ = feeds[*k].published.borrow();
        let who = if *units == 1.0 { "stock" } else { "position" };
        ev!(c, "{when}: {who} {} via {} versions {}..{} -> {:?}", r.who, r.via, r.from, r.to, r.got.as_ref().map(|x| x.0.to_bits()));
        match &r.got {
            Ok((v, e, d)) => {
                let ok = pub_[r.from..=r.to].iter().any(|p| (units * p).to_bits() == v.to_bits());
                check!(ok, "value-never-quoted", "{when}: {who} worth {v}; its quote held {:?} during the call", &pub_[r.from..=r.to]);
                if r.via > 0 {
                    let own = inst[r.who].2 != 1.0;
                    check!(own || *e == 0.0 && *d == 2, "results", "{when}: stock results carry error {e}, date {d}");
                }
                c.probe(if r.from != r.to { "moved-during-call" } else { "read" });
            }
            Err(m) => check!(m.starts_with("injected"), "panic", "{when}: {who} valuation failed by itself: {m}"),
        }
        Ok(())
    };
    for r in log.borrow().iter() {
        check_one(c, r, "live")?;
    }
    for who in 0..n_inst {
        let (i, k, _) = &inst[who];
        for via in 0..2 {
            let from = feeds[*k].version();
            let before = feeds[*k].reads.get();
            let got = c.catch(|| if via == 0 { (i.npv(), 0.0, 2) } else { let r = i.calculate(); (r.npv, r.error_estimate, r.valuation_date.serial_number()) });
            check!(got.is_ok(), "failure-remembered", "instrument {who} still fails after its quote recovered: {got:?}");
            let r = Read { who, via, from, to: from, got };
            check_one(c, &r, "settled")?;
            check!(feeds[*k].reads.get() > before, "not-read", "instrument {who} was valued without reading its quote");
        }
        let v = c.real(-9.0, 9.0);
        feeds[*k].publish(v);
        let from = feeds[*k].version();
        let got = c.catch(|| (i.npv(), 0.0, 2));
        check_one(c, &Read { who, via: 0, from, to: from, got }, "after the next tick")?;
    }
    // a stored quote shows what it stores
    let v = c.real(-1e3, 1e3);
    let mut q = SimpleQuote::new(v);
    check!(q.value() == v && q.is_valid(), "stored-quote", "a stored quote of {v} shows {}", q.value());
    let v2 = c.real(-1e3, 1e3);
    q.value = v2;
    check!(Quote::value(&q) == v2, "stored-quote", "a stored quote set to {v2} shows {}", Quote::value(&q));
    let s = Stock::new(Arc::new(q));
    check!(lib!(c, s.npv()) == v2, "stored-quote", "a stock on a stored quote of {v2} is worth {}", s.npv());
    c.sig((nt as u64) ^ (n_inst as u64) << 4 ^ (log.borrow().len() as u64) << 8 ^ feeds.iter().map(|f| f.version() as u64).sum::<u64>() << 20);
    c.nontrivial = !log.borrow().is_empty();
    Ok(())
}
