#[macro_use]
mod model;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c26;
mod c27;
mod bonds;
mod cal;
mod dayref;
mod gen;
mod hol;
mod leg;
mod ops;
mod sch;
mod solv;
use simcore::runner::{main as sim_main, Prop};

const REAL: &str = "all of rust-quantlib (its source as it stands in /repo, compiled into the simulator process with compiler-inserted basic-block guards), chrono, the Rust standard library";

fn main() {
    let props = [
        Prop {
            id: "C01",
            scenario: c01::run,
            quick_runs: 150000,
            thorough_runs: 4000000,
            rule: "One run = one seeded history of edits (add, remove, reset, copy) over up to four calendar instances of one of 18 markets, with an edit feed whose deliveries are duplicated, truncated, delayed, and crash-and-rebuild from the edit log; after every step a randomly chosen public query is compared with a day-by-day reference, and every day of the window at the end. Non-trivial: at least one edit was applied. Distinct by hash of the event log.",
            real: REAL,
            stub: "the edit feed between instances (simulated network), process crash (the instance is dropped and rebuilt from the log), hash seeds (getrandom)",
            assumptions: &["a pristine instance of the same market gives the base rule (holiday tables themselves are not re-derived; only that unedited weekend days are holidays)"],
        },
        Prop {
            id: "C02",
            scenario: c02::run,
            quick_runs: 80000,
            thorough_runs: 1000000,
            rule: "One run = one seeded history of a wall clock (clock_gettime behind the seam) that ticks, jumps, is set back, moves during the call and crosses midnights, month and year ends, with 1-3 interleaved callers making default contexts and an explicit-date desk answering next to them. Every run is non-trivial. Distinct by hash of the event log.",
            real: REAL,
            stub: "the system clock, the time zone, caller threads' scheduling",
            assumptions: &["the clock is read through clock_gettime (libc symbol), the only clock source of std and chrono"],
        },
        Prop {
            id: "C03",
            scenario: c03::run,
            quick_runs: 80000,
            thorough_runs: 600000,
            rule: "One run = one seeded program of 1-4 callers putting few, similar questions to few, similar objects of 16 kinds (every public part of the library), some after a callback panicked inside a solver, interleaved at basic blocks with stalls, under another clock, time zone and hash seed; every answer is compared with the same question asked alone in a pristine forked process. Non-trivial: more than one question. Distinct by hash of the event log.",
            real: REAL,
            stub: "thread scheduling (seeded, at compiler-inserted basic-block guards), futex, clock, getrandom, time zone",
            assumptions: &["objects are built per caller: the public types hold Rc and cannot be shared between threads"],
        },
        Prop {
            id: "C04",
            scenario: c04::run,
            quick_runs: 240000,
            thorough_runs: 4000000,
            rule: "One run = one solver call (Brent, NewtonSafe, finite-difference Newton; bracketed or from a guess; with or without bounds and evaluation caps) against a simulated function service that may answer NaN, infinities, inconsistently, stale, stall, or panic at any evaluation. Non-trivial: the solver evaluated the function at least once. Distinct by hash of the event log.",
            real: REAL,
            stub: "the function and its derivative (the remote party under simulation)",
            assumptions: &["evaluations of the function are counted, those of its derivative are not, as the cap documents"],
        },
        Prop {
            id: "C05",
            scenario: c05::run,
            quick_runs: 150000,
            thorough_runs: 4000000,
            rule: "One run = one seeded history of solver calls on shared solver objects: good requests on monotone smooth functions with known roots, failing services, panicking callbacks, invalid requests, functions that use the same solver, and interleaved callers. Non-trivial: a root was checked. Distinct by hash of the event log.",
            real: REAL,
            stub: "the functions, thread scheduling",
            assumptions: &["functions are strictly monotone on the interval with slopes bounded away from zero, so that an answer within the requested accuracy is well defined"],
        },
        Prop {
            id: "C06",
            scenario: c06::run,
            quick_runs: 150000,
            thorough_runs: 4000000,
            rule: "One run = one leg (coupons, redemptions, amortizing and plain payments, behind up to two reference counts) followed along a clock that advances, jumps and is set back by a payment processor restarted from checkpoints. Non-trivial: at least one payment was processed. Distinct by hash of the event log.",
            real: REAL,
            stub: "the valuation clock, the processor's checkpoint store",
            assumptions: &["a day count that refuses its reference periods promises nothing for that call"],
        },
        Prop {
            id: "C07",
            scenario: c07::run,
            quick_runs: 160000,
            thorough_runs: 2000000,
            rule: "One run = one fixed-rate leg built from drawn terms on a drawn schedule and followed along a clock that ticks, jumps, is set back and is rebuilt from its terms. Non-trivial: at least one coupon was checked inside its accrual period. Distinct by hash of the event log.",
            real: REAL,
            stub: "the valuation clock, restart",
            assumptions: &["a day count that refuses its reference periods promises nothing for that call"],
        },
        Prop {
            id: "C08",
            scenario: c08::run,
            quick_runs: 120000,
            thorough_runs: 2000000,
            rule: "One run = one leg marked to a yield on every tick of a clock that ticks, jumps, is set back and restarts while the quoted yield moves. Non-trivial: a roll-forward or a value with live flows was checked. Distinct by hash of the event log.",
            real: REAL,
            stub: "the valuation clock, the yield feed, restart",
            assumptions: &["a day count that refuses its reference periods promises nothing for that call"],
        },
        Prop {
            id: "C09",
            scenario: c09::run,
            quick_runs: 120000,
            thorough_runs: 2000000,
            rule: "One run = one bond priced and unpriced on every tick of a clock that ticks, jumps and is set back, with solvers starved of evaluations or started from bad guesses. Non-trivial: a price and a yield were converted into each other. Distinct by hash of the event log.",
            real: REAL,
            stub: "the valuation clock, the quote, the solver's budget",
            assumptions: &["a day count that refuses its reference periods promises nothing for that call"],
        },
        Prop {
            id: "C10",
            scenario: c10::run,
            quick_runs: 160000,
            thorough_runs: 2000000,
            rule: "One run = one fixed-rate, zero-coupon or stepped bond followed from before issue to after maturity on a clock that ticks, jumps, is set back, and is rebuilt from its terms. Non-trivial: the bond was alive on some tick. Distinct by hash of the event log.",
            real: REAL,
            stub: "the valuation clock, restart",
            assumptions: &["the settlement calendar's own answers (C01) give business days"],
        },
        Prop {
            id: "C11",
            scenario: c11::run,
            quick_runs: 150000,
            thorough_runs: 4000000,
            rule: "One run = one schedule walked by several navigators along a clock while its owner truncates, copies and rebuilds it from its truncation log and makes illegal cuts. Non-trivial: at least one navigation was checked. Distinct by hash of the event log.",
            real: REAL,
            stub: "the clock, the truncation log, restart",
            assumptions: &["the dates of the untruncated schedule are checked by C13"],
        },
        Prop {
            id: "C12",
            scenario: c12::run,
            quick_runs: 150000,
            thorough_runs: 2000000,
            rule: "One run = one futures desk rolling contracts along a clock that ticks, jumps and is set back, reading contract codes from a feed that garbles and replays them, restarting from its last code. Every run is non-trivial. Distinct by hash of the event log.",
            real: REAL,
            stub: "the clock, the code feed, restart",
            assumptions: &["dates stay between 1910 and 2190"],
        },
        Prop {
            id: "C13",
            scenario: c13::run,
            quick_runs: 100000,
            thorough_runs: 2000000,
            rule: "One run = one set of schedule terms built on every tick of a clock that ticks, jumps, is set back and restarts (evaluation date), with and without an explicit effective date. Non-trivial: a schedule with at least two dates was checked. Distinct by hash of the event log.",
            real: REAL,
            stub: "the evaluation clock, restart",
            assumptions: &["a pristine calendar gives business days"],
        },
        Prop {
            id: "C14",
            scenario: c14::run,
            quick_runs: 160000,
            thorough_runs: 3000000,
            rule: "One run = one linear or Lagrange interpolation kept up to date by a feed that delivers late, twice, out of order and garbled, compared after every update with a reference and a freshly built instance. Non-trivial: at least one update was followed by a check. Distinct by hash of the event log.",
            real: REAL,
            stub: "the data feed, restart",
            assumptions: &["knots are at least 0.05 apart"],
        },
        Prop {
            id: "C15",
            scenario: c15::run,
            quick_runs: 160000,
            thorough_runs: 3000000,
            rule: "One run = one journal of printed objects (dates, schedules, periods, bonds) on a medium with a capacity, torn writes and transient errors. Non-trivial: at least one write failed or was torn. Distinct by hash of the event log.",
            real: REAL,
            stub: "the writer (core::fmt::Write), the medium",
            assumptions: &["the text of a bond is compared with the library's own text on a healthy medium; dates, periods and schedules with independent text"],
        },
        Prop {
            id: "C16",
            scenario: c16::run,
            quick_runs: 120000,
            thorough_runs: 3000000,
            rule: "One run = one set of positions on shared live quotes that move before and during calls, stall, and fail with a panic; callers interleaved. Non-trivial: at least one value was read. Distinct by hash of the event log.",
            real: REAL,
            stub: "the quotes (implementations of the Quote trait), thread scheduling",
            assumptions: &["a quote is read through its public value() only"],
        },
        Prop {
            id: "C17",
            scenario: c17::run,
            quick_runs: 150000,
            thorough_runs: 2000000,
            rule: "One run = one credit desk asking for standard maturities and premium schedules on every trade date of a clock that ticks, jumps, is set back and restarts. Every run is non-trivial. Distinct by hash of the event log.",
            real: REAL,
            stub: "the trade-date clock, the order feed",
            assumptions: &["dates stay between 1930 and 2150"],
        },
        Prop {
            id: "C18",
            scenario: c18::run,
            quick_runs: 200000,
            thorough_runs: 4000000,
            rule: "One run = one to three dates moved in place, by value and by periods, refused at the ends of the range, stored and rebuilt, read back from torn records; all views compared with independent calendar arithmetic after every step. Every run is non-trivial. Distinct by hash of the event log.",
            real: REAL,
            stub: "storage of the date (serial, or day-month-year), restart",
            assumptions: &[],
        },
        Prop {
            id: "C19",
            scenario: c19::run,
            quick_runs: 100000,
            thorough_runs: 2000000,
            rule: "One run = one desk with one or two calendars edited through the day by a feed that delivers late and twice, resets and copies, on which schedules, legs and bonds are built in between and rebuilt from the edit log as of their building; all of them are audited against the calendars they were built with. Non-trivial: something was built and some edit was made. Distinct by hash of the event log.",
            real: REAL,
            stub: "the edit feed, the edit log, restart",
            assumptions: &["a pristine instance of the market gives the base rule"],
        },
        Prop {
            id: "C20",
            scenario: c20::run,
            quick_runs: 150000,
            thorough_runs: 3000000,
            rule: "One run = one to four trading desks of 18 markets opening along a shared clock that ticks, moves to the next opening, to Easter and the turn of the year, jumps and is set back, restarting and receiving notices of holidays already published; every day is compared with an independent list of the market's holidays (computus, almanac formula, moved and one-off days). Every run is non-trivial. Distinct by hash of the event log.",
            real: REAL,
            stub: "the clock, the notices, restart",
            assumptions: &["the published rules are those documented in the source (names of the holidays and when they are moved)", "years in which the almanac formula falls within half an hour of midnight leave the equinox days open"],
        },
        Prop {
            id: "C21",
            scenario: c21::run,
            quick_runs: 150000,
            thorough_runs: 3000000,
            rule: "One run = a desk of up to dozens of meters of 17 day-count conventions read from their anchors along a clock that ticks, moves to month ends and ends of February, jumps and is set back, re-anchored, rebuilt from their terms under other names, with sensible and senseless reference periods; every reading is compared with the convention recomputed on civil dates. Non-trivial: the clock left an anchor. Distinct by hash of the event log.",
            real: REAL,
            stub: "the clock, the terms, restart",
            assumptions: &[],
        },
        Prop {
            id: "C22",
            scenario: c22::run,
            quick_runs: 200000,
            thorough_runs: 4000000,
            rule: "One run = one deposit whose rate is re-quoted again and again between day counts, compoundings and frequencies by a feed that duplicates and garbles its requests, restarted from stored quotes, and rolled over along a clock that ticks, jumps and is set back. Non-trivial: at least one re-quote was checked. Distinct by hash of the event log.",
            real: REAL,
            stub: "the clock, the feed of requests, the store of quotes, restart",
            assumptions: &[],
        },
        Prop {
            id: "C23",
            scenario: c23::run,
            quick_runs: 200000,
            thorough_runs: 4000000,
            rule: "One run = one ledger of rounded amounts under a currency's rule: typed and computed postings, duplicates, reversals, a log of printed amounts that is torn and read back, restatements under other rules, garbled amounts; booked amounts are compared with exact decimal arithmetic. Non-trivial: a posting was booked. Distinct by hash of the event log.",
            real: REAL,
            stub: "the postings, the log, restart",
            assumptions: &["amounts have at most four decimals more than the rule keeps, and at most nine digits before them"],
        },
        Prop {
            id: "C24",
            scenario: c24::run,
            quick_runs: 200000,
            thorough_runs: 4000000,
            rule: "One run = one history of in-place and by-value operations on registers of periods and arrays, with refused steps, restarts from the log of operations, and a tenor-keyed book under changing hash seeds. Every run is non-trivial. Distinct by hash of the event log.",
            real: REAL,
            stub: "the log of operations, restart, hash seeds (getrandom)",
            assumptions: &["lengths stay small enough not to overflow"],
        },
        Prop {
            id: "C26",
            scenario: c26::run,
            quick_runs: 150000,
            thorough_runs: 3000000,
            rule: "One run = one meter of Act/Act (ISMA) time on a drawn schedule, read step by step along a clock that ticks, jumps and is set back, while the schedule is cut before and after days and put back, the meter and the leg of coupons that uses it are rebuilt from the terms and the cuts under other evaluation dates, and days off the schedule are asked for. Non-trivial: the clock moved over the schedule. Distinct by hash of the event log.",
            real: REAL,
            stub: "the clock, the terms and the record of cuts, restart",
            assumptions: &["tenors that divide a year, and notional periods that look like them (the library guesses their number a year from their length)"],
        },
        Prop {
            id: "C27",
            scenario: c27::run,
            quick_runs: 120000,
            thorough_runs: 3000000,
            rule: "One run = one or two yield curves implemented on the library's traits, whose reference date and zero yields move before and during calls, stall, fail with a panic and end at a maximum time, asked by interleaved callers for discounts by date, discounts from zero yields and forward rates over a period; every answer must be what the states the curve went through during the call make of the question, and once the faults stop what it says now. Non-trivial: at least one question was asked. Distinct by hash of the event log.",
            real: REAL,
            stub: "the curve (an implementation of the term-structure traits), thread scheduling",
            assumptions: &["the library has no curve of its own yet: only what its traits derive is under test"],
        },
    ];
    sim_main(&props);
}
