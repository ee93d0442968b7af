//! C12: a futures desk rolls contracts along a clock that ticks, jumps and is set back, reading
//! contract codes from a feed that garbles and replays them, and restarting from its last code.
use crate::gen::{d0, s0};
use crate::model::*;
use crate::sch::{ctx_at, third_wed};
use rust_quantlib::datetime::imm::IMM;
use simcore::{check, ev, fail, Ctx, Res};

const L: &[u8; 12] = b"FGHJKMNQUVXZ";
fn is_imm(s: i32, main: bool) -> bool {
    third_wed(s) == s && (!main || civ(s).m % 3 == 0)
}
/// First IMM date strictly after a day.
fn next(s: i32, main: bool) -> i32 {
    (s + 1..).find(|&d| wd(d) == 4 && is_imm(d, main)).unwrap()
}
fn code(s: i32) -> String {
    let c = civ(s);
    format!("{}{}", L[c.m as usize - 1] as char, c.y % 10)
}
/// First IMM date on or after a day carrying a code.
fn by_code(s: i32, m: i32, y: i32) -> i32 {
    let c = civ(s);
    (c.y..).filter(|k| k % 10 == y).map(|k| third_wed(ser(k, m, 1))).find(|&d| d >= s).unwrap()
}

pub fn run(c: &mut Ctx) -> Res {
    let mut t = any_date(c, MIN + 3, ser(2180, 1, 1));
    let (f_jump, f_back, f_crash, f_garble, f_stale) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 2), c.chance(1, 2), c.chance(1, 2));
    let steps = 3 + c.tail(if c.thorough { 40 } else { 14 });
    let main = c.chance(1, 2);
    // the contract held, rolled when the clock passes it
    let mut held = next(t, main);
    let mut held_code = code(held);
    let mut visited = vec![held];
    ev!(c, "today {} main cycle {main}", iso(t));
    for _ in 0..steps {
        let before = t;
        let target = held;
        t = match c.below(8) {
            0 => t + 1,
            1 => target,
            2 => target + 1,
            3 => target - 1,
            4 if f_jump => {
                c.fault("clock-jump-forward");
                t + c.range(30, 4500) as i32
            }
            5 if f_back => {
                c.fault("clock-set-back");
                t - c.range(1, 400) as i32
            }
            6 => eom(t) - c.range(0, 12) as i32,
            _ => t + c.range(1, 40) as i32,
        }
        .clamp(MIN + 3, ser(2185, 1, 1));
        c.sim_days((t - before).unsigned_abs() as u64);
        let imm = IMM::new(ctx_at(t));
        ev!(c, "today {}", iso(t));
        // today's next contract, asked with and without a date, from a desk whose clock is elsewhere
        let far = IMM::new(ctx_at((t + c.range(-4000, 4000) as i32).clamp(MIN + 3, MAX - 8000)));
        for m in [false, true] {
            let w = next(t, m);
            let a = s0(lib!(c, imm.next_date(&d0(0), m)));
            let b = s0(lib!(c, far.next_date(&d0(t), m)));
            check!(a == w, "next", "next_date() on {} (main = {m}) is {}, expected {}", iso(t), iso(a), iso(w));
            check!(b == w, "next", "next_date({}) (main = {m}) asked elsewhere is {}, expected {}", iso(t), iso(b), iso(w));
            let k = lib!(c, imm.next_code(&d0(0), m));
            check!(k == code(w), "next-code", "next_code() on {} (main = {m}) is {k}, expected {}", iso(t), code(w));
            for d in [t, w, w - 1, w + 1, w + 7, w - 7] {
                let g = lib!(c, imm.is_imm_date(&d0(d), m));
                check!(g == (wd(d) == 4 && is_imm(d, m)), "is-imm", "is_imm_date({}, main = {m}) = {g}", iso(d));
            }
            let g = lib!(c, imm.code(&d0(w)));
            check!(g == code(w), "code", "code({}) = {g}, expected {}", iso(w), code(w));
        }
        // a code from the feed
        let (mo, yd) = (1 + c.idx(12) as i32, c.range(0, 9) as i32);
        let mut msg = format!("{}{yd}", L[mo as usize - 1] as char);
        if c.chance(1, 3) {
            msg = msg.to_lowercase();
        }
        if f_stale && c.chance(1, 3) {
            c.fault("stale-code");
            msg = held_code.clone();
        }
        if f_garble && c.chance(1, 3) {
            c.fault("garbled-code");
            msg = match c.below(11) {
                8 => format!("{msg}{}", c.pick(&["\n", " ", "\t", "\r\n", "\0", "\u{feff}"])),
                9 => format!("{}{msg}", c.pick(&["\n", " ", "\t", "0", "\u{feff}"])),
                10 => format!("{} {yd}", &msg[..1]),
                0 => String::new(),
                1 => format!("{msg}{}", c.below(10)),
                2 => msg[..1].to_string(),
                3 => msg.chars().rev().collect(),
                4 => "é".into(),
                5 => format!("{}{}", c.pick(&['A', 'B', 'C', 'D', 'E', 'I', 'L', 'O', 'P', 'R', 'S', 'T', 'W', 'Y', ' ', '0']), yd),
                6 => format!("{}{}", &msg[..1], c.pick(&[' ', 'x', '-', '\u{7f}'])),
                _ => "€".into(),
            };
        }
        let b: Vec<u8> = msg.bytes().collect();
        let letter = b.first().and_then(|x| L.iter().position(|l| *l == x.to_ascii_uppercase())).map(|i| i as i32 + 1);
        let digit = b.get(1).filter(|x| x.is_ascii_digit()).map(|x| (x - b'0') as i32);
        let parsed = match (b.len(), letter, digit) {
            (2, Some(m), Some(y)) => Some((m, y)),
            _ => None,
        };
        for m in [false, true] {
            let g = lib!(c, imm.is_imm_code(&msg, m));
            let w = parsed.map_or(false, |(mo, _)| !m || mo % 3 == 0);
            check!(g == w, "is-code", "is_imm_code({msg:?}, main = {m}) = {g}");
        }
        match parsed {
            None => {
                let r = c.catch(|| imm.date(&msg, &d0(t)));
                check!(r.is_err(), "accepted-garbage", "date({msg:?}) = {r:?}");
                c.probe("garbage-refused");
            }
            Some((mo, yd)) => {
                let w = by_code(t, mo, yd);
                let a = s0(lib!(c, imm.date(&msg, &d0(0))));
                let b = s0(lib!(c, far.date(&msg, &d0(t))));
                check!(a == w, "date-of-code", "date({msg}) on {} is {}, expected {}", iso(t), iso(a), iso(w));
                check!(b == w, "date-of-code", "date({msg}, {}) is {}, expected {}", iso(t), iso(b), iso(w));
                let back = lib!(c, imm.code(&d0(a)));
                check!(back == msg.to_uppercase(), "round-trip", "{msg} is {} is {back}", iso(a));
                let wn = next(w + 1, main);
                let n = s0(lib!(c, imm.next_date_from_code(&msg, main, &d0(t))));
                check!(n == wn, "next-of-code", "contract after {msg} ({}) on {} is {}, expected {}", iso(w), iso(t), iso(n), iso(wn));
                let k = lib!(c, imm.next_code_from_code(&msg, main, &d0(0)));
                check!(k == code(wn), "next-of-code", "code after {msg} on {} is {k}, expected {}", iso(t), code(wn));
                // whoever asks, and whichever cycle is rolled into
                for m in [false, true] {
                    let wn = next(w + 1, m);
                    for (desk, at, who) in [(&imm, t, "today"), (&imm, 0, "no date"), (&far, t, "elsewhere")] {
                        let n = s0(lib!(c, desk.next_date_from_code(&msg, m, &d0(at))));
                        check!(n == wn, "next-of-code", "contract after {msg} ({}, main = {m}) on {} is {}, expected {} ({who})", iso(w), iso(t), iso(n), iso(wn));
                        let k = lib!(c, desk.next_code_from_code(&msg, m, &d0(at)));
                        check!(k == code(wn), "next-of-code", "code after {msg} (main = {m}) on {} is {k}, expected {} ({who})", iso(t), code(wn));
                    }
                    let k = lib!(c, far.next_code(&d0(t), m));
                    check!(k == code(next(t, m)), "next-code", "next_code({}) (main = {m}) asked elsewhere is {k}, expected {}", iso(t), code(next(t, m)));
                }
            }
        }
        // the desk rolls: from the held contract, or after a restart from its code and the day it was bought
        if f_crash && c.chance(1, 4) {
            c.fault("restart-from-code");
            let ref_day = (held - c.range(0, 300) as i32).max(MIN + 3);
            let g = s0(lib!(c, imm.date(&held_code, &d0(ref_day))));
            check!(g == held, "restart", "code {held_code} as of {} is {}, the desk held {}", iso(ref_day), iso(g), iso(held));
        }
        let mut guard = 0;
        while held <= t && guard < 2000 {
            let g = s0(lib!(c, imm.next_date(&d0(held), main)));
            check!(g > held, "no-progress", "rolling {} gives {}", iso(held), iso(g));
            held = g;
            visited.push(g);
            guard += 1;
        }
        held_code = lib!(c, imm.code(&d0(held)));
        c.sig((civ(t).m as u64) ^ (civ(t).d as u64) << 4 ^ (wd(t) as u64) << 10 ^ (mo as u64) << 14 ^ (yd as u64) << 18);
    }
    // no delivery month was skipped or repeated
    for w in visited.windows(2) {
        let months = |s: i32| civ(s).y * 12 + civ(s).m;
        let gap = months(w[1]) - months(w[0]);
        if gap != if main { 3 } else { 1 } {
            fail!("skipped-contract", "rolled from {} to {}", iso(w[0]), iso(w[1]));
        }
        c.probe("rolled");
    }
    c.nontrivial = true;
    Ok(())
}
