//! C10: score, Fisher information and likelihood ratios at arbitrary parameters.
use super::common::*;
use crate::refm::*;
use crate::space::*;
use sut::*;

/// Parameter vectors to query: the fit, the origin, and a lattice around both.
pub fn points(a: &At, full: bool) -> Vec<(Vec<f64>, bool)> {
    let p = &a.p;
    let k = p.k;
    let sw: f64 = p.sum_w();
    let mean_y = dot(&p.wt, &p.y) / sw;
    let mut flat = vec![0.; k];
    if p.c.icpt {
        flat[0] = link(p.c.fl, mean_y);
        if !flat[0].is_finite() {
            flat[0] = 0.;
        }
    }
    let mut v = vec![(a.b.clone(), true), (vec![0.; k], false), (flat.clone(), false)];
    let size = |j: usize| -> f64 {
        // a step that moves the linear predictor by about one
        let m = p.xr.iter().map(|r| r[j].abs()).fold(0., f64::max);
        if m > 0. { 1. / m } else { 1. }
    };
    for j in 0..k {
        for s in [0.3, -0.45] {
            for base in [&a.b, &flat] {
                let mut q = base.clone();
                q[j] += s * size(j);
                v.push((q, false));
            }
        }
        if !full {
            break;
        }
    }
    let q: Vec<f64> = (0..k).map(|j| 0.5 * a.b[j] + 0.25 * flat[j] - 0.05 * size(j)).collect();
    v.push((q, false));
    v
}

pub fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    at_fit(case, ctx, |a, ctx| {
        let p = &a.p;
        let k = p.k;
        let fl = p.c.fl;
        for (b, is_fit) in points(a, k <= 3) {
            let om = p.lin(&b);
            if om.iter().any(|&w| !in_domain(fl, w) || w.abs() > 20. && lk(fl) != Lk::Id || bounded(fl) && w.abs() < 1e-3) {
                ctx.count("point outside the domain");
                continue;
            }
            if lk(fl) == Lk::Cll && om.iter().any(|&w| w > 2.5) || lk(fl) == Lk::Logit && om.iter().any(|&w| w > 12.) {
                ctx.count("point outside the domain");
                continue;
            }
            ctx.inner_states += 1;
            ctx.transitions += 3;
            let at = |m: String| format!("at parameters {b:?}: {m}");
            let score = a.q(&Q::Score(b.clone())).map_err(at)?;
            let fish = a.q(&Q::Fisher(b.clone())).map_err(at)?;
            let lr = a.s(&Q::LrAgainst(b.clone())).map_err(at)?;
            if score.len() != k || fish.len() != k * k {
                return Err(at(format!("score has {} and Fisher {} entries for {k} parameters", score.len(), fish.len())));
            }
            let g = p.grad(&b);
            let info = p.info(&b);
            // the library goes through standardized coordinates: rounding relative to magnitudes
            let bm = p.bmag(&b);
            let amp: f64 = (0..p.n)
                .map(|i| {
                    let w = om[i];
                    match fam(fl) {
                        Fam::Logistic | Fam::Bin(_) => 1. + if p.wt[i] > 0. { (w.max(0.)).exp() * if lk(fl) == Lk::Cll { w.exp().exp() } else { 1. } } else { 0. },
                        _ => if bounded(fl) { 1. + bm / w.abs() } else { 1. },
                    }
                })
                .fold(1., f64::max);
            let gm: Vec<f64> = (0..k)
                .map(|j| {
                    (0..p.n)
                        .filter(|&i| p.wt[i] > 0.)
                        .map(|i| {
                            let m = mu(fl, om[i]);
                            p.wt[i] * deta(fl, om[i]).abs() * (p.y[i].abs() + m.abs() + bm * dmu(fl, om[i]).abs()) * p.xr[i][j].abs()
                        })
                        .sum::<f64>()
                        + p.c.l2 * p.sig[j].powi(2) * b[j].abs()
                        + p.c.l1 * p.sig[j]
                })
                .collect();
            // components mix through the centering when there is an intercept
            let mix = |j: usize| -> f64 { if p.c.icpt && p.c.std && j > 0 { gm[j] + p.shift[j].abs() * gm[0] } else { gm[j] } };
            for j in 0..k {
                if is_fit && p.c.l1 > 0. && p.sig[j] > 0. && (b[j] * p.sig[j]).abs() < 1e-5 {
                    continue; // the sign of a coefficient the penalty removed is rounding
                }
                ctx.within("score", score[j], g[j], 1e-12 * amp * mix(j)).map_err(|m| at(format!("[{j}] {m}; score {score:?}, gradient {g:?}")))?;
            }
            let f_or = |i: usize, j: usize| fish[i * k + j];
            for i in 0..k {
                for j in 0..k {
                    let sc = ((info[i][i] * info[j][j]).sqrt()) * (1. + if p.c.icpt && p.c.std { center_amp(p, &info, i).max(center_amp(p, &info, j)) } else { 0. });
                    let t = 1e-12 * amp * bm * sc;
                    ctx.within("fisher", f_or(i, j), info[i][j], t).map_err(|m| at(format!("[{i},{j}] {m}; library {fish:?}, definition {info:?}")))?;
                    ctx.within("fisher symmetry", f_or(i, j), f_or(j, i), t).map_err(at)?;
                }
            }
            let want_lr = 2. * (p.obj(&a.b) - p.obj(&b));
            let ls: f64 = p.wsum(|i| (1. + ll(fl, p.y[i], om[i]).abs() + (p.y[i] * om[i]).abs() + mu(fl, om[i]).abs() + ll(fl, p.y[i], a.st.om[i]).abs())) + p.penalty(&b) + p.penalty(&a.b);
            ctx.within("likelihood ratio against", lr, want_lr, 1e-11 * bm * amp.min(1e3) * ls + 1e-11 * bm * bm).map_err(at)?;
            if is_fit && p.c.l1 == 0. && concave(fl) {
                // stationary: the score is zero in the metric of the information
                let d = matvec(a.st.inv.as_ref().unwrap(), &score);
                let dec = dot(&d, &score);
                let scale: f64 = 1. + p.wt.iter().zip(&p.y).map(|(w, y)| w * (y.abs() + 1.)).sum::<f64>();
                ctx.within("score vanishes at the fit", dec, 0., 1e-10 * scale).map_err(at)?;
            }
        }
        Ok(())
    })
}
/// rounding of the transformation to centered coordinates, relative to the diagonal entry
fn center_amp(p: &Prob, info: &Mat, i: usize) -> f64 {
    if i == 0 {
        return (0..p.k).map(|_| 0.).fold(0., f64::max);
    }
    (p.shift[i].powi(2) * info[0][0] / info[i][i]).sqrt() * 10.
}
pub fn groups(th: bool) -> Vec<Group> {
    let regs = [(0., 0.), (0., 0.4), (0.25, 0.), (0.2, 0.3)];
    vec![Group { name: "score", plans: plans(th, &regs, &BUILTIN), check }]
}
