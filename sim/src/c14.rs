//! C14: a curve follows its quotes. A feed delivers new quotes (and new abscissas) late, twice, out
//! of order and garbled; after every update the interpolation answers as one built afresh from the
//! data it holds now, whatever it held before and whatever failed in between.
use crate::model::Draw;
use crate::ops::knots;
use rust_quantlib::maths::interpolations::interpolation::Interpolation;
use rust_quantlib::maths::interpolations::lagrangeinterpolation::LagrangeInterpolation;
use rust_quantlib::maths::interpolations::linearinterpolation::LinearInterpolation;
use simcore::sched::{run_threads, Opts};
use simcore::{check, ev, Ctx, Res};
use std::cell::RefCell;

enum Curve {
    Lin(LinearInterpolation<'static>),
    Lag(LagrangeInterpolation<'static>),
}
use Curve::*;
impl Curve {
    fn new(lagrange: bool, x: &'static [f64], y: &'static [f64]) -> Curve {
        if lagrange { Lag(LagrangeInterpolation::new(x, y)) } else { Lin(LinearInterpolation::new(x, y)) }
    }
    fn hold(&mut self, x: &'static [f64], y: &'static [f64]) {
        match self {
            Lin(i) => {
                i.x = x;
                i.y = y
            }
            Lag(i) => {
                i.x = x;
                i.y = y
            }
        }
    }
    fn update(&mut self) {
        match self {
            Lin(i) => i.update(),
            Lag(i) => i.update(),
        }
    }
    fn i(&self) -> &dyn Interpolation {
        match self {
            Lin(i) => i,
            Lag(i) => i,
        }
    }
}

/// Straight lines through the knots, first and last extended; the integral from the first knot.
struct RefLin<'a>(&'a [f64], &'a [f64]);
impl RefLin<'_> {
    /// the pieces that may answer for z: both at an interior knot
    fn pieces(&self, z: f64) -> Vec<usize> {
        let n = self.0.len();
        let v: Vec<usize> = (0..n - 1).filter(|&i| self.0[i] <= z && z <= self.0[i + 1]).collect();
        if !v.is_empty() { v } else if z < self.0[0] { vec![0] } else { vec![n - 2] }
    }
    fn slope(&self, i: usize) -> f64 {
        (self.1[i + 1] - self.1[i]) / (self.0[i + 1] - self.0[i])
    }
    fn value(&self, z: f64) -> f64 {
        let i = self.pieces(z)[0];
        self.1[i] + self.slope(i) * (z - self.0[i])
    }
    fn primitive(&self, z: f64) -> f64 {
        let k = *self.pieces(z).last().unwrap();
        let whole: f64 = (0..k).map(|i| 0.5 * (self.1[i] + self.1[i + 1]) * (self.0[i + 1] - self.0[i])).sum();
        whole + 0.5 * (self.1[k] + self.1[k] + self.slope(k) * (z - self.0[k])) * (z - self.0[k])
    }
}
/// The one polynomial through the knots by Lagrange's basis, its derivative, and the condition.
/// Also what the barycentric formula may lose to cancellation at z, in the value and (over the distance to
/// the next knot) in the derivative: far outside the knots the weights cancel.
fn poly(x: &[f64], y: &[f64], z: f64) -> (f64, f64, f64, f64, f64, f64) {
    let (mut p, mut dp, mut cond, mut dcond, mut leb) = (0.0, 0.0, 0.0, 0.0, 0.0);
    for i in 0..x.len() {
        let mut l = 1.0;
        let mut dl = 0.0;
        for j in (0..x.len()).filter(|&j| j != i) {
            let mut t = 1.0 / (x[i] - x[j]);
            for k in (0..x.len()).filter(|&k| k != i && k != j) {
                t *= (z - x[k]) / (x[i] - x[k]);
            }
            dl += t;
            l *= (z - x[j]) / (x[i] - x[j]);
        }
        p += l * y[i];
        leb += f64::abs(l);
        dp += dl * y[i];
        cond += (l * y[i]).abs() + y[i].abs();
        dcond += (dl * y[i]).abs();
    }
    let lost = 1e-14 * (cond + f64::abs(p) * leb);
    (p, dp, cond, dcond + cond, lost, lost * leb)
}

/// The power of two below v: scaling by it loses nothing.
fn unit(v: f64) -> f64 {
    if v > 0.0 { v.log2().floor().exp2() } else { 1.0 }
}
/// The knots and quotes are judged in units of the mean distance of the knots and the greatest quote.
fn ask(c: &mut Ctx, cv: &Curve, x: &[f64], y: &[f64], when: &str) -> Res {
    let n = x.len();
    let ux = unit((x[n - 1] - x[0]) / (n - 1) as f64);
    let uy = unit(y.iter().fold(0.0f64, |m, v| m.max(v.abs())));
    let raw = y;
    let (x, y): (Vec<f64>, Vec<f64>) = (x.iter().map(|v| v / ux).collect(), y.iter().map(|v| v / uy).collect());
    let (x, y) = (&x[..], &y[..]);
    let (a, b) = (x[0], x[n - 1]);
    let who = if matches!(cv, Lin(_)) { "linear" } else { "Lagrange" };
    let z = match c.below(8) {
        0 => x[c.idx(n)],
        1 => a,
        2 => b,
        3 => a - c.real(0.001, 2.0),
        4 => b + c.real(0.001, 2.0),
        5 => { let k = c.idx(n); x[k] + c.pick(&[1e-12, -1e-12, 1e-6, -1e-6, 1e-4, -1e-4, 3e-5, -3e-5, 4e-4, -4e-4, 3e-3, -3e-3]) }
        _ => c.real(a, b),
    };
    let i = cv.i();
    let inside = z >= a && z <= b;
    let near_end = [a, b].iter().any(|e| (z - e).abs() <= 1e-11 * (1.0 + e.abs()));
    check!(lib!(c, i.xmin()) == a * ux && lib!(c, i.xmax()) == b * ux, "range", "{who} {when}: range [{}, {}], the knots span [{}, {}]", i.xmin(), i.xmax(), a * ux, b * ux);
    if inside || !near_end {
        check!(lib!(c, i.is_in_range(z * ux)) == inside, "range", "{who} {when}: is_in_range({z}) = {} on [{a}, {b}]", !inside);
        if !inside {
            c.fault("out-of-range-request");
            let r = c.catch(|| i.value(z * ux));
            check!(r.is_err(), "extrapolated", "{who} {when}: value({z}) outside [{a}, {b}] was answered {r:?}");
            let r = c.catch(|| i.derivative(z * ux));
            check!(r.is_err(), "extrapolated", "{who} {when}: derivative({z}) outside [{a}, {b}] was answered {r:?}");
            let r = c.catch(|| if matches!(cv, Lin(_)) { i.primitive(z * ux) + i.second_derivative(z * ux) } else { i.value_with_extrapolation(z * ux, false) });
            check!(r.is_err(), "extrapolated", "{who} {when}: an answer outside [{a}, {b}] at {z}: {r:?}");
        }
    }
    if c.chance(1, 8) {
        let r = c.catch(|| i.value(f64::NAN));
        check!(r.is_err(), "extrapolated", "{who} {when}: value(NaN) was answered {r:?}");
    }
    let ext = !inside || c.chance(1, 2);
    let g = lib!(c, i.value_with_extrapolation(z * ux, ext)) / uy;
    let plain = c.catch(|| i.value(z * ux)).ok().map(|v| v / uy);
    let at = x.iter().rposition(|k| *k <= z);
    if z < b && near_end == false {
        let k = lib!(c, i.locate(z * ux));
        check!(k == at.unwrap_or(0), "locate", "{who} {when}: {z} lies after knot {at:?}, located at {k}");
        use rust_quantlib::maths::bounds::{lower_bound, upper_bound};
        let k = lib!(c, (lower_bound(x, z), upper_bound(x, z)));
        let w = (x.iter().filter(|k| **k < z).count(), x.iter().filter(|k| **k <= z).count());
        check!(k == w, "locate", "{who} {when}: the bounds of {z} among {n} knots are {k:?}, and not {w:?}");
    }
    if let Some(p) = plain {
        check!(p.to_bits() == g.to_bits(), "value", "{who} {when}: value({z}) = {p}, with extrapolation allowed {g}");
    }
    let top = y.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    match cv {
        Lin(l) => {
            let r = RefLin(x, y);
            let slopes: Vec<f64> = (0..n - 1).map(|k| r.slope(k)).collect();
            let steep = slopes.iter().fold(0.0f64, |m, v| m.max(v.abs()));
            let scale = top + steep * (1.0 + z.abs() + b.abs().max(a.abs()));
            let w = r.value(z);
            check!((g - w).abs() <= 1e-12 * scale, "value", "{who} {when}: value at {z} is {g}, the line through the knots gives {w}");
            let d = lib!(c, l.derivative_with_extrapolation(z * ux, ext)) * (ux / uy);
            let tie = r.pieces(z).len() > 1 || x.iter().any(|k| (k - z).abs() < 1e-9);
            if z < b && !tie || z > b {
                let s = slopes[r.pieces(z)[0]];
                check!((d - s).abs() <= 1e-9 * (1.0 + steep), "slope", "{who} {when}: derivative at {z} is {d}, the line rises by {s}");
            } else if z == b || (b - z).abs() < 1e-9 {
                let s = slopes[n - 2];
                check!((d - s).abs() <= 1e-9 * (1.0 + steep), "slope", "{who} {when}: derivative at the last knot {z} is {d}, the line rises by {s}");
            } else {
                check!(slopes.iter().any(|s| (d - s).abs() <= 1e-9 * (1.0 + steep)), "slope", "{who} {when}: derivative at knot {z} is {d}");
            }
            check!(lib!(c, l.second_derivative_with_extrapolation(z * ux, ext)) == 0.0, "slope", "{who} {when}: a line bends at {z}");
            let (pz, wz) = (lib!(c, l.primitive_with_extrapolation(z * ux, ext)) / ux / uy, r.primitive(z));
            check!((pz - wz).abs() <= 1e-11 * scale * (1.0 + (b - a).abs() + z.abs()), "integral", "{who} {when}: integral to {z} is {pz}, the area is {wz}");
        }
        Lag(l) => {
            let (w, dw, cond, dcond, lost_v, lost_d) = poly(x, y, z);
            let near = x.iter().map(|k| (k - z).abs()).fold(f64::MAX, f64::min);
            let at = x.iter().position(|k| *k == z);
            if let Some(k) = at {
                check!(g == y[k], "knot", "{who} {when}: value at knot {z} is {g}, the quote is {} ({} in units of {uy})", y[k], raw[k]);
                c.probe("at-a-knot");
            } else if near > 1e-8 {
                let gap = x.windows(2).map(|w| w[1] - w[0]).fold(f64::MAX, f64::min);
                check!((g - w).abs() <= 1e-10 * cond * (1.0 + 1e-3 / near.min(gap)) + lost_v, "value", "{who} {when}: value at {z} is {g}, the polynomial through the knots gives {w}");
            }
            // (beside a knot the formula cancels)
            if at.is_some() || near > 1e-5 {
                let d = lib!(c, l.derivative_with_extrapolation(z * ux, ext)) * (ux / uy);
                let lost = if at.is_some() { 0.0 } else { 1e-13 / (near * near) };
                check!((d - dw).abs() <= (1e-8 + lost) * (dcond + dw.abs()) + if at.is_some() { 0.0 } else { lost_d / near }, "slope", "{who} {when}: derivative at {z} is {d}, the polynomial's is {dw}");
            }
        }
    }
    Ok(())
}

pub fn run(c: &mut Ctx) -> Res {
    let nc = 1 + c.idx(3);
    let mut cs: Vec<(Curve, &'static [f64], &'static [f64])> = vec![];
    for _ in 0..nc {
        let lagrange = c.chance(1, 2);
        let n = 2 + if lagrange { c.idx(6) } else { c.tail(8) };
        let (x, y) = draw(c, n);
        cs.push((lib!(c, Curve::new(lagrange, x, y)), x, y));
    }
    let (f_late, f_garble, f_rebuild) = (c.chance(1, 2), c.chance(1, 2), c.chance(1, 2));
    let mut past: Vec<(usize, &'static [f64], &'static [f64])> = vec![];
    let steps = 3 + c.tail(if c.thorough { 30 } else { 12 });
    for s in 0..steps {
        let k = c.idx(nc);
        let n = cs[k].1.len();
        match c.below(5) {
            0 | 1 => {
                // new quotes, or quotes at new points
                let (x, y) = draw(c, n);
                let old = cs[k].1;
                let x = match c.below(4) {
                    0 | 1 => old,
                    // the knots between the ends move, or all of them by as much, or all but one end
                    2 if n > 2 => {
                        let (a, b) = (old[0], old[n - 1]);
                        let mut v: Vec<f64> = x.iter().map(|v| a + (v - x[0]) / (x[n - 1] - x[0]) * (b - a)).collect();
                        match c.below(4) {
                            0 => {
                                let o = c.pick(&[1.0, -0.5, 2.0]);
                                v = old.iter().map(|v| v + o).collect();
                            }
                            1 => v[n - 1] = b + (b - a) / 4.0,
                            2 => {
                                let i = 1 + c.idx(n - 2);
                                v = old.to_vec();
                                v[i] = (v[i - 1] + v[i + 1]) / 2.0 + (v[i + 1] - v[i - 1]) * c.pick(&[0.0, 0.125, -0.25]);
                            }
                            _ => {
                                v[0] = a;
                                v[n - 1] = b;
                            }
                        }
                        if v.windows(2).all(|w| w[0] < w[1]) { Box::leak(v.into()) } else { x }
                    }
                    _ => x,
                };
                past.push((k, cs[k].1, cs[k].2));
                let cv = &mut cs[k];
                cv.0.hold(x, y);
                lib!(c, cv.0.update());
                cv.1 = x;
                cv.2 = y;
                ev!(c, "curve {k}: new data, {n} knots");
            }
            2 if f_late && !past.is_empty() => {
                let (k, x, y) = past[c.idx(past.len())];
                c.fault("stale-data-redelivered");
                let cv = &mut cs[k];
                cv.0.hold(x, y);
                let twice = c.chance(1, 2);
                lib!(c, cv.0.update());
                if twice {
                    c.fault("update-repeated");
                    lib!(c, cv.0.update());
                }
                cv.1 = x;
                cv.2 = y;
                ev!(c, "curve {k}: old data again");
            }
            3 if f_garble => {
                // garbage arrives and is then corrected
                let (x, mut y) = draw(c, n);
                let mut bad = y.to_vec();
                bad[c.idx(n)] = c.pick(&[f64::NAN, f64::INFINITY, -f64::INFINITY, 1e308]);
                y = Box::leak(bad.into());
                c.fault("garbled-data");
                let cv = &mut cs[k];
                cv.0.hold(x, y);
                let _ = c.catch(|| cv.0.update());
                let z = (x[0] + x[n - 1]) / 2.0;
                let _ = c.catch(|| cv.0.i().value(z));
                cv.0.hold(cv.1, cv.2);
                lib!(c, cv.0.update());
                ev!(c, "curve {k}: garbage, then corrected");
            }
            4 if f_rebuild => {
                c.fault("rebuilt-from-data");
                let cv = &mut cs[k];
                cv.0 = lib!(c, Curve::new(matches!(cv.0, Lag(_)), cv.1, cv.2));
                ev!(c, "curve {k}: rebuilt");
            }
            _ => {}
        }
        for _ in 0..3 {
            let k = c.idx(nc);
            let (x, y) = (cs[k].1, cs[k].2);
            ask(c, &cs[k].0, x, y, &format!("step {s}"))?;
        }
        // and as a curve built afresh
        let (cv, x, y) = &cs[k];
        let f = lib!(c, Curve::new(matches!(cv, Lag(_)), x, y));
        let z = c.real(x[0] - 1.0, x[n - 1] + 1.0);
        let all = |v: &Curve| {
            let i = v.i();
            let mut o = vec![i.value_with_extrapolation(z, true), i.derivative_with_extrapolation(z, true)];
            if matches!(v, Lin(_)) {
                o.push(i.primitive_with_extrapolation(z, true));
            }
            o.iter().map(|v| v.to_bits()).collect::<Vec<_>>()
        };
        let (g, w) = (lib!(c, all(cv)), lib!(c, all(&f)));
        check!(g == w, "stale", "curve {k} after step {s} answers {g:x?} at {z}, one built afresh from the same data {w:x?}");
        c.sig((n as u64) ^ (nc as u64) << 8 ^ (matches!(cv, Lag(_)) as u64) << 16 ^ (z < x[0]) as u64 ^ ((z > x[n - 1]) as u64) << 1);
    }
    // several readers of the same curves at once
    if nc > 1 {
        let out: Vec<RefCell<Vec<(f64, f64)>>> = (0..2).map(|_| Default::default()).collect();
        let zs: Vec<Vec<(usize, f64)>> = (0..2).map(|_| (0..6).map(|_| { let k = c.idx(nc); (k, c.real(cs[k].1[0], *cs[k].1.last().unwrap())) }).collect()).collect();
        let o = Opts { quantum: c.pick(&[3, 15]), stall_den: 6, max_preemptions: 100 };
        let (cs, outr) = (&cs, &out);
        let fs = zs.iter().enumerate().map(|(t, z)| Box::new(move || {
            for &(k, z) in z {
                let v = simcore::seams::lib(|| cs[k].0.i().value(z));
                outr[t].borrow_mut().push((z, v));
            }
        }) as Box<dyn FnOnce() + '_>).collect();
        run_threads(o, fs);
        for (t, z) in zs.iter().enumerate() {
            for (n, &(k, z)) in z.iter().enumerate() {
                let w = lib!(c, cs[k].0.i().value(z));
                check!(out[t].borrow()[n].1.to_bits() == w.to_bits(), "interleaved", "reader {t}: value at {z} is {} while others read, {w} alone", out[t].borrow()[n].1);
            }
        }
    }
    c.nontrivial = true;
    Ok(())
}
fn draw(c: &mut Ctx, n: usize) -> (&'static [f64], &'static [f64]) {
    let (mut x, mut y) = knots(c, n);
    if c.chance(1, 3) {
        // other units: fractions of a day, serial numbers of days, basis points, millions
        let (p, q) = (c.pick(&[1.0, 1e-3, 365.25, 1e5]), c.pick(&[1.0, 1e-4, 1e6]));
        let o = c.pick(&[0.0, 0.0, 45_000.0]);
        x.iter_mut().for_each(|v| *v = *v * p + if p >= 1.0 { o } else { 0.0 });
        y.iter_mut().for_each(|v| *v *= q);
    }
    match c.below(5) {
        // a knot exactly at zero, round numbers, equal quotes
        0 => {
            let k = c.idx(n);
            let s = x[k];
            x.iter_mut().for_each(|v| *v -= s);
        }
        1 => x.iter_mut().enumerate().for_each(|(i, v)| *v = i as f64),
        2 => {
            let v = y[0];
            y.iter_mut().for_each(|q| *q = v);
        }
        _ => {}
    }
    (Box::leak(x.into()), Box::leak(y.into()))
}
