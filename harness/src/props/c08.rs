//! C08: residuals equal their definitions.
use super::common::*;
use crate::refm::*;
use crate::space::*;
use sut::*;

pub fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    at_fit(case, ctx, |a, ctx| {
        let (p, s) = (&a.p, &a.st);
        let n = p.n;
        let resp = a.q(&Q::ResResp)?;
        let work = a.q(&Q::ResWork)?;
        let pear = a.q(&Q::ResPear)?;
        let dev = a.q(&Q::ResDev)?;
        let devstd = a.q(&Q::ResDevStd)?;
        let pearstd = a.q(&Q::ResPearStd)?;
        let stud = a.q(&Q::ResStudent)?;
        let part = a.q(&Q::ResPart)?;
        ctx.transitions += 8;
        for (k, v) in [("response", &resp), ("working", &work), ("pearson", &pear), ("deviance", &dev), ("std deviance", &devstd), ("std pearson", &pearstd), ("studentized", &stud)] {
            if v.len() != n {
                return Err(format!("{k} residuals: {} values for {n} rows", v.len()));
            }
        }
        let want_part = s.resid_part(p, &case.d, &a.b);
        if part.len() != want_part.len() {
            return Err(format!("partial residuals: {} values, expected {}", part.len(), want_part.len()));
        }
        let bmag = p.bmag(&a.b);
        for i in 0..n {
            // rounding of the linear predictor carries over to the mean
            let e = 1e-13 * (bmag * s.dm[i].abs() + p.y[i].abs() + s.mu[i].abs());
            let row = |m: String| format!("row {i}: {m}");
            ctx.within("response residual", resp[i], s.resp[i], e).map_err(row)?;
            ctx.within("working residual", work[i], s.work[i], e / s.dm[i].abs() + 1e-13 * s.vamp[i] * bmag * (1. + s.work[i].abs())).map_err(row)?;
            let pe = e * (p.w[i] / s.v[i]).sqrt() + 1e-13 * s.vamp[i] * bmag * s.pear[i].abs();
            ctx.within("pearson residual", pear[i], s.pear[i], pe).map_err(row)?;
            let de = 1e-12 * bmag * s.dt_scale[i] + 1e-12 * s.dt[i];
            ctx.within("squared deviance residual", dev[i] * dev[i], s.dt[i], de).map_err(row)?;
            let clear = s.resp[i].abs() > 1e-9 * (bmag * s.dm[i].abs() + p.y[i].abs() + s.mu[i].abs());
            if clear {
                for (k, v) in [("deviance", dev[i]), ("studentized", stud[i]), ("standardized deviance", devstd[i]), ("pearson", pear[i]), ("working", work[i] * s.dm[i])] {
                    if v != 0. && !v.is_nan() && v.signum() != s.resp[i].signum() {
                        return Err(row(format!("{k} residual {v} has the wrong sign: y - mu = {}", s.resp[i])));
                    }
                }
            }
            let omh = 1. - s.lev[i];
            let he = 1e-13 / a.eig * bmag * s.vmax.max(s.vamp[i]);
            if omh > 1e-6 && s.phi.is_finite() && s.dev > 1e-9 * s.dev_scale {
                let rel = he / omh + 1e-12 * bmag * s.dev_scale / s.dev;
                let sc = s.phi * omh;
                let t = de / sc + rel * s.dt[i] / sc;
                ctx.within("squared standardized deviance residual", devstd[i] * devstd[i], s.dt[i] / sc, t).map_err(row)?;
                let want = s.pear[i] / sc.sqrt();
                ctx.within("standardized pearson residual", pearstd[i], want, pe / sc.sqrt() + rel * want.abs()).map_err(row)?;
                let (d, pl) = s.student(p)[i];
                if d.is_finite() && pl.is_finite() && pl > 0. {
                    // the leave-out dispersion loses accuracy where the row carries the whole deviance
                    let r = s.lev[i] / omh;
                    let left = s.dev - p.f[i] * (s.dt[i] + r * s.pear[i].powi(2));
                    let rest = (p.sum_w() - p.wt[i]) / p.sum_w();
                    let dof = dof_left(p, i);
                    let ok = !free_disp(p.c.fl) || (left > 1e-6 * s.dev && rest > 1e-6 && dof > 1e-6);
                    if ok {
                        let amp = if free_disp(p.c.fl) { s.dev / left / dof.min(1.) } else { 1. };
                        let rel_d = he / omh / omh * 4.;
                        let rel_pl = (he / omh / omh + 1e-12 * bmag * s.dev_scale / s.dev) * amp;
                        let pe2 = (1. / omh / omh) * (2. * s.pear[i].abs() * pe + pe * pe);
                        let t = (de + pe2 + rel_d * d) / pl + rel_pl * d / pl;
                        ctx.within("squared studentized residual", stud[i] * stud[i], d / pl, t).map_err(row)?;
                    }
                }
            }
            for j in 0..case.d.p {
                let o = p.c.icpt as usize;
                let k = i * case.d.p + j;
                let xb = a.b[j + o].abs() * p.xr.iter().map(|r| r[j + o].abs()).fold(0., f64::max);
                let t = e / s.dm[i].abs() + 1e-13 * s.vamp[i] * (bmag * (1. + s.work[i].abs()) + xb);
                ctx.within("partial residual", part[k], want_part[k], t).map_err(|m| format!("row {i} covariate {j}: {m}"))?;
            }
            if fam(p.c.fl) == Fam::Lin {
                ctx.within("linear: deviance residual is the pearson residual", dev[i].abs(), pear[i].abs(), 1e-7 * bmag * (1. + s.dt_scale[i].sqrt())).map_err(row)?;
            }
        }
        let d = a.s(&Q::Dev)?;
        ctx.within("deviance is the sum of squared deviance residuals", d, (0..n).map(|i| p.f[i] * dev[i] * dev[i]).sum(), 1e-12 * s.dev_scale)?;
        // stationarity seen through the Pearson residuals
        if p.c.l1 == 0. && p.c.l2 == 0. && concave(p.c.fl) {
            for j in 0..p.k {
                let t: Vec<f64> = (0..n).map(|i| p.f[i] * p.w[i].sqrt() * pear[i] * s.v[i].sqrt() * s.de[i] * p.xr[i][j]).collect();
                let sum: f64 = t.iter().sum();
                let sc: f64 = p.wsum(|i| (p.y[i].abs() + s.mu[i].abs() + s.dm[i].abs()) * (s.de[i] * p.xr[i][j]).abs());
                ctx.within("pearson residuals orthogonal to the weighted design", sum, 0., 1e-5 * sc)?;
            }
        }
        Ok(())
    })
}
/// remaining degrees of freedom of the one-step leave-out dispersion, relative to the rest
fn dof_left(p: &Prob, i: usize) -> f64 {
    let s1 = p.sum_w() - p.wt[i];
    let s2 = if p.has_w { (0..p.n).map(|j| p.f[j] * p.w[j] * p.w[j]).sum::<f64>() - p.f[i] * p.w[i] * p.w[i] } else { s1 };
    (s1 - p.k as f64 * s2 / s1) / s1
}
pub fn groups(th: bool) -> Vec<Group> {
    let regs = [(0., 0.), (0., 0.3), (0.25, 0.)];
    vec![Group { name: "residuals", plans: plans(th, &regs, &BUILTIN), check }]
}
