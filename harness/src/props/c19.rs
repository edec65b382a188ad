//! C19: quantile residuals.
use super::common::*;
use crate::refm::*;
use crate::space::*;
use sut::*;

pub fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    at_fit(case, ctx, |a, ctx| {
        let (p, s) = (&a.p, &a.st);
        let got = match a.fit.get(&Q::ResQuant) {
            Out::Val(_, v) => v,
            o => return Err(format!("quantile residuals: {}", o.show())),
        };
        ctx.transitions += 1;
        if got.len() != p.n {
            return Err(format!("{} quantile residuals for {} rows", got.len(), p.n));
        }
        let Some(want) = s.quantile(p) else { return Ok(()) };
        let bm = p.bmag(&a.b);
        let drel = if free_disp(p.c.fl) { 1e-12 * bm * s.dev_scale / s.dev } else { 0. };
        if free_disp(p.c.fl) && !(s.dev > 1e-7 * s.dev_scale && p.n_eff() - p.k as f64 > 1e-6 * p.n_eff()) {
            ctx.count("perfect or saturated fit");
            return Ok(());
        }
        for i in 0..p.n {
            let (z, mag) = want[i];
            if !z.is_finite() {
                ctx.count("quantile not computable");
                continue;
            }
            if !mag.is_finite() {
                // far tails: only the side is decided
                if z.abs() > 5. && !(got[i].is_infinite() || got[i].abs() > 4.9) || got[i].is_nan() || got[i].signum() != z.signum() {
                    return Err(format!("row {i}: quantile residual is {}, definition gives {z}", got[i]));
                }
                ctx.count("far tail");
                continue;
            }
            let e = 1e-12 * (bm * s.dm[i].abs() + p.y[i].abs() + s.mu[i].abs());
            let sd = (s.phi * s.v[i] / p.w[i]).sqrt();
            let t = (1e-9 + drel * 10.) * mag + 20. * e / sd * (1. + z.abs()) * (1. + 1. / mag);
            ctx.within("quantile residual", got[i], z, t).map_err(|m| format!("row {i}: {m} (dispersion {}, mean {}, weight {})", s.phi, s.mu[i], p.w[i]))?;
            if fam(p.c.fl) == Fam::Lin {
                ctx.within("linear: quantile residual is the scaled residual", got[i], s.resp[i] * (p.w[i] / s.phi).sqrt(), t).map_err(|m| format!("row {i}: {m}"))?;
            }
        }
        // increasing in the response among rows with the same mean and weight
        for i in 0..p.n {
            for j in 0..p.n {
                if p.y[i] < p.y[j] && p.w[i] == p.w[j] && p.xr[i] == p.xr[j] && p.off[i] == p.off[j] && got[i] > got[j] {
                    return Err(format!("rows {i} and {j} differ only in the response, {} < {}, but have quantile residuals {} > {}", p.y[i], p.y[j], got[i], got[j]));
                }
            }
        }
        ctx.count("compared");
        Ok(())
    })
}
pub fn groups(th: bool) -> Vec<Group> {
    let regs = [(0., 0.), (0., 0.4), (0.25, 0.), (0.2, 0.3)];
    let fls = [Fl::Lin, Fl::ExpN, Fl::ExpL, Fl::GamN, Fl::GamL, Fl::LLog, Fl::GRec];
    let t = th as usize;
    let f = Prod { reg: regs.to_vec(), fls: fls.to_vec(), ..full() };
    let med = Prod { wp: vec![Wp::N, Wp::W, Wp::Wf0, Wp::Wwide], ..f.clone() };
    let plans = vec![
        Plan { world: w_p0(2, 3 + 3 * t), confs: f.confs() },
        Plan { world: w_p1(3, 3 + 2 * t), confs: f.confs() },
        Plan { world: w_p1y(3, 3 + 2 * t), confs: med.confs() },
        Plan { world: w_wide(3, 3 + 2 * t), confs: med.confs() },
        Plan { world: w_low(3, 3 + t), confs: if th { med.confs() } else { Prod { wp: vec![Wp::N, Wp::W], of: vec![Of::V], ..f.clone() }.confs() } },
        Plan { world: w_far(3, 3 + t), confs: med.confs() },
        Plan { world: w_p2(4, 4 + t), confs: Prod { of: vec![Of::V], ..med.clone() }.confs() },
        Plan { world: w_tall(24, 1 + t), confs: f.confs() },
        Plan { world: w_tall5(40, 1 + t), confs: med.confs() },
        Plan { world: w_tall1(90, 1 + t), confs: med.confs() },
    ];
    vec![Group { name: "quantile", plans, check }]
}
