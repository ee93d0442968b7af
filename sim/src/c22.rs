//! C22: a deposit's rate is quoted again and again - other day counts, compoundings, frequencies - by a
//! feed that repeats and garbles its requests, stored, read back, and rolled along a clock. Whatever the
//! quote, the money at the horizon is the same.
use crate::gen::*;
use crate::model::*;
use rust_quantlib::datetime::frequency::Frequency;
use rust_quantlib::rates::interestrate::InterestRate;
use simcore::{check, ev, Ctx, Res};

struct Quote {
    mine: Rate,
    lib: InterestRate,
}
fn draw(c: &mut Ctx) -> Rate {
    let mut y = Rate::draw(c, false);
    y.freq = c.pick(&ALL_FREQS);
    if c.chance(1, 8) {
        // next to nothing
        y.r = c.real(1.0, 9.0) * 10f64.powi(-(c.range(6, 14) as i32));
    }
    if c.chance(1, 8) {
        // ruin and riches
        y.r = if c.chance(1, 2) { -c.real(0.1, 0.98) } else { c.real(0.2, 3.0) };
    }
    y
}
/// The terms on the quote itself.
fn terms(c: &mut Ctx, q: &InterestRate, comp_: usize, freq: Frequency, what: &str) -> Res {
    check!(q.compounding == comp(comp_), "convention", "{what}: asked for {:?}, quoted {:?}", comp(comp_), q.compounding);
    let f = lib!(c, q.frequency());
    let want = if matches!(comp_, 1 | 3 | 4) { freq } else { Frequency::NoFrequency };
    check!(f == want, "convention", "{what}: asked for frequency {want:?}, quoted {f:?}");
    Ok(())
}
/// Is the quote that reproduces a growth within floating-point reach?
fn reachable(w: f64, freq: Frequency, t: f64) -> bool {
    let n = freq as i32 as f64;
    let b = w.ln() / (n * t);
    b.is_finite() && (-5.0..60.0).contains(&b)
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * b.abs().max(1e-3)
}

pub fn run(c: &mut Ctx) -> Res {
    let d1 = any_date(c, ser(1930, 1, 1), ser(2150, 1, 1));
    let span = match c.below(4) {
        0 => c.range(0, 40),
        1 => c.pick(&[365, 366, 182, 181, 184, 91, 30, 31, 7, 14, 28, 360]),
        _ => c.range(1, 4000),
    } as i32;
    let d2 = d1 + span;
    // a reference period matters to some day counts only
    let (ra, rb) = if c.chance(1, 3) { (d1, add_months(d1, c.pick(&[1, 3, 6, 12]))) } else { (0, 0) };
    let first = draw(c);
    let lib = lib!(c, first.lib());
    terms(c, &lib, first.comp, first.freq, "the first quote")?;
    ev!(c, "deposit {} to {}, {first:?}", iso(d1), iso(d2));
    // the money at the horizon
    let Ok(t1) = c.catch(|| first.yf(d1, d2, ra, rb)) else { return Ok(()) };
    if t1 < 0.0 {
        return Ok(());
    }
    let w = first.growth(t1);
    if !w.is_finite() || w < 1e-6 || w > 1e9 {
        return Ok(());
    }
    let mut book = vec![Quote { mine: first, lib }];
    let (f_dup, f_garble, f_crash, f_jump) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 2), c.chance(1, 2));
    let steps = 3 + c.tail(if c.thorough { 30 } else { 12 });
    let mut t = d1;
    for _ in 0..steps {
        let i = c.idx(book.len());
        let (mine, lib) = (book[i].mine, book[i].lib.clone());
        let to = draw(c);
        let (cm, fq) = (comp(to.comp), to.freq);
        match c.below(8) {
            // the same money in another convention, between the deposit's own dates
            0 | 1 | 2 => {
                let both = c.catch(|| (mine.yf(d1, d2, ra, rb), to.yf(d1, d2, ra, rb)));
                let Ok((t1, t2)) = both else { continue };
                if t1 < 0.0 || t2 < 0.0 {
                    continue;
                }
                let ask = || lib.equivalent_rate_between_dates(&dc(to.dc), &cm, fq, &d0(d1), &d0(d2), &d0(ra), &d0(rb));
                let g0 = lib!(c, lib.compound_factor(t1));
                if t2 == 0.0 && g0 != 1.0 {
                    // no rate grows over no time
                    let r = c.catch(ask);
                    check!(r.is_err(), "no-time", "growth {g0} over no time ({:?}) was quoted as {:?}", dc(to.dc).name(), r.map(|x| x.rate));
                    c.fault("request-refused");
                    continue;
                }
                if (t2 > 0.0 && !reachable(g0, fq, t2)) || (t2 > 0.0 && t2 < 1e-4) {
                    continue;
                }
                let q = lib!(c, ask());
                terms(c, &q, to.comp, fq, "re-quoted")?;
                let new = Rate { r: q.rate, ..to };
                let (g, gl) = (new.growth(t2), lib!(c, q.compound_factor_between_dates(&d0(d1), &d0(d2), &d0(ra), &d0(rb))));
                check!(near(g, w) && near(gl, w), "money", "{mine:?} re-quoted as {new:?}: 1 grows from {} to {} to {g} ({gl}), not {w}", iso(d1), iso(d2));
                let df = lib!(c, q.discount_factor_between_dates(&d0(d1), &d0(d2), &d0(ra), &d0(rb)));
                check!(near(df * gl, 1.0), "inverse", "{new:?}: discount {df} and growth {gl} are not inverse");
                if f_dup && c.chance(1, 2) {
                    c.fault("request-repeated");
                    let again = lib!(c, ask());
                    check!(again.rate.to_bits() == q.rate.to_bits(), "repeat", "the same re-quote gives {} and {}", q.rate, again.rate);
                }
                ev!(c, "re-quoted {new:?}");
                c.nontrivial = true;
                c.sig(mine.dc as u64 | (to.dc as u64) << 4 | (mine.comp as u64) << 8 | (to.comp as u64) << 12 | (fq as i32 as u64) << 16);
                if w > 0.999 && w < 1.001 && (w - 1.0).abs() < 1e-12 {
                    // nothing earned: the quote says so, and is good for no other horizon
                    c.probe("nothing-earned");
                }
                book.push(Quote { mine: new, lib: q });
            }
            // over a time of the quote's own measure
            3 => {
                let tt = c.pick(&[0.0, 0.25, 0.5, 1.0, 1.0 / 12.0, 1.0 / 3.0, 2.0, 7.5]) + if c.chance(1, 2) { c.real(0.0, 3.0) } else { 0.0 };
                let g = mine.growth(tt);
                let gl = lib!(c, lib.compound_factor(tt));
                if !g.is_finite() || g > 1e9 {
                    continue;
                }
                check!(near(gl, g), "growth", "{mine:?} grows 1 to {gl} over {tt}, expected {g}");
                check!(near(lib!(c, lib.discount_factor(tt)) * g, 1.0) || g.abs() < 1e-6, "inverse", "{mine:?}: discount over {tt} is not the inverse of {g}");
                if g < 1e-6 || (tt > 0.0 && !reachable(g, fq, tt)) {
                    continue;
                }
                let q = lib!(c, lib.equivalent_rate(&cm, fq, tt));
                terms(c, &q, to.comp, fq, "equivalent")?;
                check!(lib!(c, q.daycounter.name()) == dc(mine.dc).name(), "convention", "equivalent rate counts days by {}", q.daycounter.name());
                let new = Rate { r: q.rate, dc: mine.dc, ..to };
                let back = lib!(c, q.compound_factor(tt));
                let per = |r: &Rate| if matches!(r.comp, 1 | 3 | 4) { r.freq as i32 as f64 * tt } else { 1.0 };
                let lost = 4e-15 * (2.0 + per(&mine) + per(&to) + if tt > 0.0 { 1.0 / per(&to) } else { 0.0 });
                check!((back - gl).abs() <= lost + 1e-9 * (gl - 1.0).abs(), "money", "{mine:?} is equivalent to {new:?} over {tt}: grows by {:e}, not {:e}", back - 1.0, gl - 1.0);
                check!(near(new.growth(tt), g) && near(back, g), "money", "{mine:?} is equivalent to {new:?} over {tt}: grows to {back}, not {g}");
                c.nontrivial = true;
            }
            // read off from the money itself
            4 => {
                if c.chance(1, 3) {
                    // next to nothing earned is not nothing
                    let tt = c.pick(&[1.0 / 365.0, 0.25, 1.0, 1.0, 7.5]);
                    let x = c.real(1.0, 9.9) * 10f64.powi(-(c.range(5, 13) as i32)) * c.pick(&[1.0, -1.0]);
                    let w = 1.0 + x;
                    let q = lib!(c, lib.implied_rate(w, &dc(to.dc), &cm, fq, tt));
                    terms(c, &q, to.comp, fq, "implied")?;
                    let per = if matches!(to.comp, 1 | 3 | 4) { fq as i32 as f64 * tt } else { 1.0 };
                    let lost = 2e-15 * (1.0 + per + 1.0 / per);
                    let (new, want) = (q.rate * tt, (w - 1.0).ln_1p());
                    check!((new - want).abs() <= lost + x * x * (1.0 + 1.0 / per), "money", "growth by {x:e} over {tt} was read as a rate of {} ({:?} {fq:?})", q.rate, to.comp);
                    let g = lib!(c, q.compound_factor(tt)) - 1.0;
                    check!((g - (w - 1.0)).abs() <= 4.0 * lost, "money", "growth by {x:e} over {tt}, read as {}, grows by {g:e}", q.rate);
                    c.probe("next-to-nothing-earned");
                    continue;
                }
                let Ok(t2) = c.catch(|| to.yf(d1, d2, ra, rb)) else { continue };
                if t2 < 1e-4 || !reachable(w, fq, t2) {
                    continue;
                }
                let q = if c.chance(1, 2) {
                    lib!(c, lib.implied_rate(w, &dc(to.dc), &cm, fq, t2))
                } else {
                    lib!(c, lib.implied_rate_between_dates(w, &dc(to.dc), &cm, fq, &d0(d1), &d0(d2), &d0(ra), &d0(rb)))
                };
                terms(c, &q, to.comp, fq, "implied")?;
                check!(lib!(c, q.daycounter.name()) == dc(to.dc).name(), "convention", "implied rate counts days by {}", q.daycounter.name());
                let new = Rate { r: q.rate, ..to };
                check!(near(new.growth(t2), w), "money", "growth {w} over {t2} read as {new:?} grows to {}", new.growth(t2));
                book.push(Quote { mine: new, lib: q });
                c.nontrivial = true;
            }
            // a garbled request is refused and leaves the quote alone
            5 if f_garble => {
                let bits = lib.rate.to_bits();
                let (what, refused) = match c.below(6) {
                    0 => ("dates in the wrong order", c.catch(|| lib.compound_factor_between_dates(&d0(d2 + 1), &d0(d1), &d0(ra), &d0(rb))).is_err()),
                    1 => ("dates in the wrong order", c.catch(|| lib.equivalent_rate_between_dates(&dc(to.dc), &cm, fq, &d0(d2 + 1), &d0(d1), &d0(ra), &d0(rb))).is_err()),
                    2 => ("a negative time", c.catch(|| lib.compound_factor(-0.01 - span as f64)).is_err()),
                    3 => ("money lost entirely", c.catch(|| lib.implied_rate(-((span % 3) as f64), &dc(to.dc), &cm, fq, 1.0)).is_err()),
                    4 => ("growth over negative time", c.catch(|| lib.implied_rate(1.05, &dc(to.dc), &cm, fq, -1.0)).is_err()),
                    _ => {
                        let bad = if span % 2 == 0 { Frequency::Once } else { Frequency::NoFrequency };
                        let k = [1usize, 3, 4][span as usize % 3];
                        ("compounding without a frequency", c.catch(|| InterestRate::new(mine.r, dc(mine.dc), comp(k), bad)).is_err()
                            && c.catch(|| lib.implied_rate(1.05, &dc(to.dc), &comp(k), bad, 1.0)).is_err())
                    }
                };
                c.fault("garbled-request");
                check!(refused, "accepted-garbage", "{mine:?}: {what} was accepted");
                check!(book[i].lib.rate.to_bits() == bits, "moved", "a refused request moved the quote");
            }
            // only the terms were stored
            6 if f_crash => {
                c.fault("restart-from-stored-quote");
                let y = lib!(c, InterestRate::new(mine.r, dc(mine.dc), comp(mine.comp), mine.freq));
                let tt = c.real(0.0, 5.0);
                let (a, b) = (lib!(c, y.compound_factor(tt)), lib!(c, lib.compound_factor(tt)));
                check!(a.to_bits() == b.to_bits(), "restart", "{mine:?} rebuilt from its terms grows 1 to {a} over {tt}, was {b}");
                book[i].lib = y;
            }
            // rolled over along the clock: interest on interest makes up the whole
            _ => {
                let from = t;
                t = match c.below(4) {
                    0 if f_jump => {
                        c.fault("clock-jump-forward");
                        t + c.range(30, 2000) as i32
                    }
                    1 if f_jump => {
                        c.fault("clock-set-back");
                        (t - c.range(1, 300) as i32).max(d1)
                    }
                    _ => t + c.range(1, 30) as i32,
                };
                c.sim_days((t - from).unsigned_abs() as u64);
                if mine.dc >= N_ADDITIVE || !matches!(mine.comp, 1 | 2) || t == d1 {
                    continue;
                }
                let mid = c.range(d1 as i64, t as i64) as i32;
                let f = |a: i32, b: i32| lib.compound_factor_between_dates(&d0(a), &d0(b), &Default::default(), &Default::default());
                let (a, b, whole) = (lib!(c, f(d1, mid)), lib!(c, f(mid, t)), lib!(c, f(d1, t)));
                if whole.is_finite() && whole > 1e-9 {
                    check!((a * b - whole).abs() <= 1e-9 * whole * (1.0 + (t - d1) as f64 / 365.0), "rolled", "{mine:?}: {} to {} grows {a}, to {} {b}, over the whole {whole}", iso(d1), iso(mid), iso(t));
                    c.probe("rolled-over");
                }
            }
        }
    }
    // every quote still says the same about the deposit
    for q in &book {
        let Ok(t2) = c.catch(|| q.mine.yf(d1, d2, ra, rb)) else { continue };
        if t2 < 0.0 {
            continue;
        }
        let g = lib!(c, q.lib.compound_factor_between_dates(&d0(d1), &d0(d2), &d0(ra), &d0(rb)));
        check!(near(g, w), "money", "at the end {:?} grows 1 to {g}, not {w}", q.mine);
    }
    Ok(())
}
